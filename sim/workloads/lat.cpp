// Workload "lat": Bravais lattices, Brillouin zones and tight-binding Hamiltonians made, refused, copied, evaluated, binned, saved and
// restored, with failing allocations, I/O errors and crashes at random calls of the store.
// Real code: triqs/lattice/*, triqs/mesh/brzone. Oracle: the list of hoppings and the sums written out.
#include "trf_common.hpp"
#include <triqs/lattice/tight_binding.hpp>
#include <triqs/lattice/grid_generator.hpp>
#include <set>
#include <sstream>
#define EXPORT extern "C" __attribute__((visibility("default")))
using namespace tw;
using triqs::lattice::bravais_lattice;
using triqs::lattice::brillouin_zone;
using triqs::lattice::tight_binding;
using nda::range;

namespace triqs::lattice { // defined by the library without a declaration
  nda::array<cd, 3> hopping_stack(tight_binding const &TB, nda::array_const_view<double, 2> k_stack);
  nda::array<double, 2> energies_on_bz_path(tight_binding const &TB, k_t const &K1, k_t const &K2, int n_pts);
  nda::array<cd, 3> energy_matrix_on_bz_path(tight_binding const &TB, k_t const &K1, k_t const &K2, int n_pts);
  nda::array<double, 2> energies_on_bz_grid(tight_binding const &TB, int n_pts);
} // namespace triqs::lattice

EXPORT void wl_generate(sim::Rng &g, sim::Plan &p) {
  p.cfg["ranks"] = 1;
  int n          = (int)g.range(2, 10);
  bool io        = g.chance(0.5);
  static const std::vector<std::string> ops = {"make", "make", "four", "four", "mesh", "mesh", "mesh", "disp", "dos", "dos", "patch", "path", "geo", "geo", "copy", "refuse", "refuse", "save", "load"};
  p.ops.push_back({0, "make", {0, 0, (int64_t)(g.next() >> 24)}});
  for (int i = 0; i < n; ++i) {
    std::string k = io && g.chance(0.4) ? (g.chance(0.6) ? "save" : "load") : g.pick(ops);
    p.ops.push_back({0, k, {g.chance(0.7) ? 0 : 1, g.range(0, 1), (int64_t)(g.next() >> 24)}});
    if (!io && g.chance(0.12)) p.faults.push_back({g.chance(0.7) ? "alloc" : "new", {i + 1, g.chance(0.6) ? g.range(1, 12) : g.range(1, 120)}});
  }
  int nf = io ? (int)g.range(0, 3) : 0;
  for (int i = 0; i < nf; ++i) p.faults.push_back({"io", {0, g.range(0, 120), g.range(0, 1)}});
}

// ================================================================= model
struct Model {
  int dim = 3, norb = 1;
  int form = 0; // how the units are given
  double u[3][3] = {};
  std::vector<std::array<double, 3>> pos;
  std::vector<std::string> names;
  std::vector<std::vector<long>> R;
  std::vector<std::vector<cd>> t; // norb x norb
  bool operator==(Model const &) const = default;
  std::vector<cd> h(double const *k) const {
    std::vector<cd> r(norb * norb);
    for (size_t j = 0; j < R.size(); ++j) {
      double ph = 0;
      for (int d = 0; d < dim; ++d) ph += k[d] * R[j][d];
      cd f = std::polar(1.0, 2 * M_PI * ph);
      for (size_t e = 0; e < r.size(); ++e) r[e] += f * t[j][e];
    }
    return r;
  }
  double scale() const {
    double s = 0;
    for (auto const &m : t)
      for (auto x : m) s += std::abs(x);
    return s + 1e-3;
  }
};
struct World {
  int pc = 0;
  std::optional<Model> saved[2];
  int ok[2] = {}; // 0: nothing, 1: saved, 2: unknown
};
static World &W() { return *static_cast<World *>(sim::world()); }

static Model make_model(Draw &d, int dim = 0, int norb = 0) {
  Model m;
  m.dim = dim ? dim : (int)d.i(1, 3);
  m.norb = norb ? norb : (int)d.of({1, 1, 2, 2, 3});
  m.form = (int)d.i(0, 1);
  for (;;) {
    for (int i = 0; i < m.dim; ++i)
      for (int j = 0; j < m.dim; ++j) m.u[i][j] = d.p(0.3) ? (i == j) : d.u(-1.5, 1.5);
    double det = m.dim == 1 ? m.u[0][0] : m.dim == 2 ? m.u[0][0] * m.u[1][1] - m.u[0][1] * m.u[1][0] : 0;
    if (m.dim == 3)
      for (int i = 0; i < 3; ++i)
        det += m.u[0][i] * (m.u[1][(i + 1) % 3] * m.u[2][(i + 2) % 3] - m.u[1][(i + 2) % 3] * m.u[2][(i + 1) % 3]);
    if (std::abs(det) > 0.2) break;
  }
  bool names = d.p(0.5);
  for (int i = 0; i < m.norb; ++i) {
    m.pos.push_back({d.p(0.5) ? 0.0 : d.u(), d.u(), d.u()});
    m.names.push_back(names ? "orb" + std::to_string(i) : "");
  }
  std::set<std::vector<long>> used;
  auto mat = [&](bool herm) {
    std::vector<cd> a(m.norb * m.norb);
    for (auto &x : a) x = d.p(0.2) ? cd(0) : d.p(0.5) ? cd(d.u(-1, 1)) : d.c();
    if (herm)
      for (int i = 0; i < m.norb; ++i)
        for (int j = 0; j <= i; ++j) a[i * m.norb + j] = i == j ? cd(a[i * m.norb + i].real()) : std::conj(a[j * m.norb + i]);
    return a;
  };
  auto add = [&](std::vector<long> R, std::vector<cd> a) {
    m.R.push_back(R);
    m.t.push_back(a);
    used.insert(R);
  };
  int np = (int)d.i(0, 4);
  if (np == 0 || d.p(0.5)) add(std::vector<long>(m.dim, 0), mat(true));
  for (int k = 0; k < np; ++k) {
    std::vector<long> R(m.dim), Q(m.dim);
    for (int i = 0; i < m.dim; ++i) R[i] = d.i(-2, 2), Q[i] = -R[i];
    if (R == Q || used.count(R)) continue;
    auto a = mat(false), b = a;
    for (int i = 0; i < m.norb; ++i)
      for (int j = 0; j < m.norb; ++j) b[i * m.norb + j] = std::conj(a[j * m.norb + i]);
    add(R, a);
    add(Q, b);
  }
  if (m.R.empty()) add(std::vector<long>(m.dim, 0), mat(true));
  for (size_t i = m.R.size(); i > 1; --i) { // in any order
    size_t j = d.i(0, (long)i - 1);
    std::swap(m.R[i - 1], m.R[j]);
    std::swap(m.t[i - 1], m.t[j]);
  }
  return m;
}
struct Args {
  nda::matrix<double> units;
  std::vector<nda::vector<double>> pos;
  std::vector<std::string> names;
  std::vector<nda::vector<long>> R;
  std::vector<nda::matrix<cd>> t;
  explicit Args(Model const &m) : names(m.names) {
    int c = m.form ? 3 : m.dim; // vectors of three components are accepted in any dimension
    units = nda::matrix<double>(m.dim, c);
    for (int i = 0; i < m.dim; ++i)
      for (int j = 0; j < c; ++j) units(i, j) = m.u[i][j];
    for (auto const &x : m.pos) {
      nda::vector<double> v(3);
      for (int i = 0; i < 3; ++i) v(i) = x[i];
      pos.push_back(v);
    }
    for (auto const &x : m.R) {
      nda::vector<long> v((long)x.size());
      for (size_t i = 0; i < x.size(); ++i) v((long)i) = x[i];
      R.push_back(v);
    }
    for (auto const &x : m.t) {
      nda::matrix<cd> a(m.norb, m.norb);
      for (int i = 0; i < m.norb; ++i)
        for (int j = 0; j < m.norb; ++j) a(i, j) = x[i * m.norb + j];
      t.push_back(a);
    }
    if (m.names[0].empty()) names.clear();
  }
};
static void check_lattice(bravais_lattice bl, Model const &m, char const *what) {
  if (bl.ndim() != m.dim) FAIL("lattice", "%s: %d dimensions, it has %d", what, bl.ndim(), m.dim);
  if (bl.n_orbitals() != m.norb) FAIL("lattice", "%s: %ld orbitals, it has %d", what, bl.n_orbitals(), m.norb);
  auto const &u = bl.units();
  for (int i = 0; i < m.dim; ++i)
    for (int j = 0; j < 3; ++j)
      if (u(i, j) != (j < m.dim ? m.u[i][j] : 0)) FAIL("lattice", "%s: component %d of unit vector %d is %g, it was given as %g", what, j, i, u(i, j), j < m.dim ? m.u[i][j] : 0);
  for (int i = m.dim; i < 3; ++i)
    for (int j = 0; j <= i; ++j) { // the completion: unit length, orthogonal to all others
      double s = 0;
      for (int c = 0; c < 3; ++c) s += u(i, c) * u(j, c);
      if (!(std::abs(s - (i == j)) < 1e-12)) FAIL("lattice", "%s: the vectors %d and %d that complete the basis have the product %g", what, i, j, s);
    }
  auto pos = bl.orbital_positions();
  auto nm  = bl.orbital_names();
  if ((int)pos.size() != m.norb || nm != m.names) FAIL("lattice", "%s: names or positions of the orbitals differ", what);
  for (int i = 0; i < m.norb; ++i)
    for (int c = 0; c < 3; ++c)
      if (pos[i](c) != m.pos[i][c]) FAIL("lattice", "%s: position of orbital %d differs", what, i);
}

struct Lat {
  std::optional<tight_binding> tb[2];
  std::optional<Model> m[2];

  static tight_binding build(Model const &x) {
    Args a(x);
    std::optional<tight_binding> r;
    under([&] { r.emplace(bravais_lattice(a.units, a.pos, a.names), a.R, a.t); });
    return std::move(*r);
  }
  void check() {
    for (int s = 0; s < 2; ++s) {
      if (!m[s]) continue;
      auto const &x = *tb[s];
      check_lattice(x.lattice(), *m[s], "a Hamiltonian's lattice");
      Args a(*m[s]);
      if (x.displ_vec().size() != a.R.size() || x.overlap_mat_vec().size() != a.t.size() || x.n_orbitals() != m[s]->norb) FAIL("hoppings", "%zu displacements and %zu matrices of %ld orbitals, expected %zu of %d", x.displ_vec().size(), x.overlap_mat_vec().size(), x.n_orbitals(), a.R.size(), m[s]->norb);
      for (size_t j = 0; j < a.R.size(); ++j)
        if (!same_bits(flat(x.displ_vec()[j]), flat(a.R[j])) || !same_bits(flat(x.overlap_mat_vec()[j]), flat(a.t[j]))) FAIL("hoppings", "displacement or matrix %zu differs from what was given", j);
    }
    if (m[0] && m[1]) {
      auto same = [](Model const &a, Model const &b) { // as the library compares
        if (a.dim != b.dim || a.norb != b.norb || a.R != b.R || a.t != b.t) return false;
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 3; ++j)
            if (a.u[i][j] != b.u[i][j]) return false;
        return true;
      };
      bool e = same(*m[0], *m[1]);
      if ((*tb[0] == *tb[1]) != e || (*tb[0] != *tb[1]) == e) FAIL("comparison", "two Hamiltonians that %s compare as if not", e ? "are equal" : "differ");
    }
  }
  static void near(cd x, cd e, double tol, char const *what, long i) {
    if (!(std::abs(x - e) <= tol)) FAIL("value", "%s: element %ld is %.12g%+.12gi, expected %.12g%+.12gi", what, i, x.real(), x.imag(), e.real(), e.imag());
  }
  template <typename A> static void cmp_h(A const &a, Model const &x, double const *k, char const *what) {
    auto e = x.h(k);
    auto v = flat(a);
    if (v.size() != e.size()) FAIL("shape", "%s: %zu elements, expected %zu", what, v.size(), e.size());
    for (size_t i = 0; i < e.size(); ++i) near(v[i], e[i], 1e-12 * x.scale(), what, (long)i);
  }
  // ascending, and with the right sums of powers
  template <typename A> static void cmp_e(A const &a, Model const &x, double const *k, char const *what) {
    auto h = x.h(k);
    auto v = flat(a);
    int n  = x.norb;
    if ((int)v.size() != n) FAIL("shape", "%s: %zu eigenvalues of %d bands", what, v.size(), n);
    auto p = h;
    double s = x.scale(), sp = s;
    for (int q = 1; q <= n; ++q) {
      cd tr = 0;
      double sum = 0;
      for (int i = 0; i < n; ++i) tr += p[i * n + i], sum += std::pow(v[i], q);
      near(sum, tr, 1e-10 * sp, what, q);
      std::vector<cd> r(n * n);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          for (int l = 0; l < n; ++l) r[i * n + j] += p[i * n + l] * h[l * n + j];
      p = r;
      sp *= s;
    }
    for (int i = 0; i + 1 < n; ++i)
      if (!(v[i] <= v[i + 1])) FAIL("order", "%s: the eigenvalues are not in ascending order", what);
  }
  static nda::matrix<cd> hmat(Model const &x, double const *k) {
    auto h = x.h(k);
    nda::matrix<cd> r(x.norb, x.norb);
    for (int i = 0; i < x.norb; ++i)
      for (int j = 0; j < x.norb; ++j) r(i, j) = h[i * x.norb + j];
    return r;
  }
  static void draw_k(Draw &d, double *k) {
    for (int c = 0; c < 3; ++c) k[c] = d.p(0.2) ? (double)d.i(-2, 2) : d.p(0.2) ? 0.5 : d.u(-2, 2);
  }

  void run(sim::Op const &op) {
    auto const &k = op.name;
    int s = (int)op.arg(0) & 1, s2 = (int)op.arg(1) & 1;
    Draw d(op.arg(2));
    if (k == "make") {
      auto x = make_model(d);
      auto t = build(x);
      tb[s]  = std::move(t);
      m[s]   = x;
      return;
    }
    if (k == "load") return load(s, s2);
    if (k == "refuse") return refuse(s, d);
    if (!m[s]) return;
    auto const &T = *tb[s];
    auto const &x = *m[s];
    sim::state(sim::mix(sim::mix(x.dim * 8 + x.norb, x.R.size()), std::hash<std::string>{}(k)));
    if (k == "copy") {
      if (s == s2) {
        std::optional<tight_binding> c;
        under([&] { c.emplace(T); });
        if (!(*c == T)) FAIL("comparison", "a copy differs");
        tight_binding b = std::move(*c);
        *tb[s] = b;
        return;
      }
      switch (d.i(0, 3)) {
        case 0: tb[s2] = T, m[s2] = x; break;
        case 1: tb[s2] = std::move(*tb[s]), m[s2] = x, tb[s].reset(), m[s].reset(); break;
        case 2:
          std::swap(tb[s], tb[s2]);
          std::swap(m[s], m[s2]);
          break;
        case 3:
          if (!m[s2]) tb[s2].emplace(T);
          else *tb[s2] = T;
          m[s2] = x;
          break;
      }
      return;
    }
    if (k == "save") return save(s, s2, d);
    if (k == "four") {
      double kk[3];
      draw_k(d, kk);
      int n    = d.p(0.5) ? 3 : x.dim;
      int form = (int)d.i(0, 6);
      if (form <= 2) {
        nda::vector<double> v(n);
        nda::array<double, 1> a(n);
        nda::array<double, 2> b(n, 2);
        b = 7.5;
        for (int c = 0; c < n; ++c) v(c) = a(c) = b(c, 1) = kk[c];
        nda::matrix<cd> r;
        under([&] {
          if (form == 0) r = T.fourier(v);
          if (form == 1) r = T.fourier(a);
          if (form == 2) r = T.fourier(b(range::all, 1));
        });
        cmp_h(r, x, kk, "fourier(k)");
        // hermitian, periodic in the reciprocal lattice
        return;
      }
      int nk = (int)d.i(1, 4);
      std::vector<std::array<double, 3>> ks(nk);
      for (auto &q : ks) draw_k(d, q.data());
      if (form == 6) {
        nda::array<double, 2> st(n, nk);
        for (int i = 0; i < nk; ++i)
          for (int c = 0; c < n; ++c) st(c, i) = ks[i][c];
        nda::array<cd, 3> r;
        under([&] { r = triqs::lattice::hopping_stack(T, st); });
        if (r.shape() != std::array<long, 3>{x.norb, x.norb, nk}) FAIL("shape", "hopping_stack has another shape");
        for (int i = 0; i < nk; ++i) cmp_h(r(range::all, range::all, i), x, ks[i].data(), "hopping_stack");
        return;
      }
      nda::array<double, 2> a(nk, n), wide(nk, 2 * n);
      nda::matrix<double> mt(nk, n);
      wide = 3.25;
      for (int i = 0; i < nk; ++i)
        for (int c = 0; c < n; ++c) a(i, c) = mt(i, c) = wide(i, n + c) = ks[i][c];
      nda::array<cd, 3> r;
      under([&] {
        if (form == 3) r = T.fourier(a);
        if (form == 4) r = T.fourier(mt);
        if (form == 5) r = T.fourier(wide(range::all, range(n, 2 * n)));
      });
      if (r.shape() != std::array<long, 3>{nk, x.norb, x.norb}) FAIL("shape", "fourier of %d momenta has another shape", nk);
      for (int i = 0; i < nk; ++i) cmp_h(r(i, nda::ellipsis()), x, ks[i].data(), "fourier(array of k)");
      return;
    }
    if (k == "disp") {
      int n  = d.p(0.5) ? 3 : x.dim;
      int nk = (int)d.i(1, 4);
      nda::array<double, 2> a(nk, n);
      std::vector<std::array<double, 3>> ks(nk);
      for (auto &q : ks) draw_k(d, q.data());
      for (int i = 0; i < nk; ++i)
        for (int c = 0; c < n; ++c) a(i, c) = ks[i][c];
      if (d.p(0.4)) {
        nda::array<double, 1> e;
        under([&] { e = T.dispersion(a(0, range::all)); });
        return cmp_e(e, x, ks[0].data(), "dispersion(k)");
      }
      nda::array<double, 2> e;
      under([&] { e = T.dispersion(a); });
      if (e.shape() != std::array<long, 2>{nk, x.norb}) FAIL("shape", "dispersion of %d momenta has another shape", nk);
      for (int i = 0; i < nk; ++i) cmp_e(e(i, range::all), x, ks[i].data(), "dispersion(array of k)");
      return;
    }
    if (k == "mesh") {
      brillouin_zone bz{T.lattice()};
      long n = d.p(0.6) ? 3 : d.i(1, 4);
      std::array<long, 3> dims{n, x.dim > 1 ? n : 1, x.dim > 2 ? n : 1};
      bool reg = d.p(0.6), disp = d.p(0.5);
      if (!reg)
        for (int c = 0; c < x.dim; ++c) dims[c] = d.i(1, 4);
      mesh::brzone km{bz, dims};
      std::array<double, 3> kk;
      auto each = [&](auto const &g, auto cmp) {
        if (g.mesh() != km) FAIL("mesh", "the result lives on another mesh");
        long i = 0;
        for (long a = 0; a < dims[0]; ++a)
          for (long b = 0; b < dims[1]; ++b)
            for (long c = 0; c < dims[2]; ++c) {
              kk = {(double)a / dims[0], (double)b / dims[1], (double)c / dims[2]};
              cmp(g.data()(i++, nda::ellipsis()));
            }
        if (i != g.data().shape()[0]) FAIL("shape", "%ld values on a mesh of %ld points", g.data().shape()[0], i);
      };
      if (disp) {
        gf<mesh::brzone, tensor_real_valued<1>> g;
        under([&] { g = reg ? T.dispersion((int)n) : T.dispersion(km); });
        each(g, [&](auto const &v) { cmp_e(v, x, kk.data(), "dispersion(mesh)"); });
      } else {
        gf<mesh::brzone, matrix_valued> g;
        under([&] { g = reg ? T.fourier((int)n) : T.fourier(km); });
        each(g, [&](auto const &v) { cmp_h(v, x, kk.data(), "fourier(mesh)"); });
      }
      return;
    }
    if (k == "dos") return dos(s, d);
    if (k == "patch") return patch(s, d);
    if (k == "path") {
      std::array<double, 3> a, b;
      draw_k(d, a.data());
      draw_k(d, b.data());
      nda::vector<double> K1(3), K2(3);
      for (int c = 0; c < 3; ++c) K1(c) = a[c], K2(c) = b[c];
      int n = (int)d.i(1, 5), form = (int)d.i(0, 3);
      if (form == 0) {
        int c = 0;
        std::vector<std::pair<std::vector<long>, std::vector<cd>>> got;
        under([&] { foreach (T, [&](auto const &R, auto const &t) { ++c; if (arm_n <= 0) got.push_back({flat(R), flat(t)}); }); });
        if (c != (int)x.R.size()) FAIL("foreach", "foreach calls %d times for %zu hoppings", c, x.R.size());
        for (size_t i = 0; i < got.size(); ++i)
          if (got[i].first != x.R[i] || got[i].second != x.t[i]) FAIL("foreach", "foreach gives another hopping %zu", i);
        return;
      }
      auto at = [&](int i) {
        std::array<double, 3> q;
        for (int c = 0; c < 3; ++c) q[c] = a[c] + (b[c] - a[c]) / n * i;
        return q;
      };
      if (form == 1) {
        nda::array<double, 2> e;
        under([&] { e = triqs::lattice::energies_on_bz_path(T, K1, K2, n); });
        if (e.shape() != std::array<long, 2>{x.norb, n}) FAIL("shape", "energies_on_bz_path has another shape");
        for (int i = 0; i < n; ++i) cmp_e(e(range::all, i), x, at(i).data(), "energies_on_bz_path");
      } else if (form == 2) {
        nda::array<cd, 3> e;
        under([&] { e = triqs::lattice::energy_matrix_on_bz_path(T, K1, K2, n); });
        if (e.shape() != std::array<long, 3>{x.norb, x.norb, n}) FAIL("shape", "energy_matrix_on_bz_path has another shape");
        for (int i = 0; i < n; ++i) cmp_h(e(range::all, range::all, i), x, at(i).data(), "energy_matrix_on_bz_path");
      } else {
        nda::array<double, 2> e;
        under([&] { e = triqs::lattice::energies_on_bz_grid(T, n); });
        long N = 1;
        for (int c = 0; c < x.dim; ++c) N *= n;
        if (e.shape() != std::array<long, 2>{x.norb, N}) FAIL("shape", "energies_on_bz_grid has another shape");
        for (long j = 0; j < N; ++j) {
          auto q = grid(j, n, x.dim);
          cmp_e(e(range::all, j), x, q.data(), "energies_on_bz_grid");
        }
      }
      return;
    }
    if (k == "geo") return geo(s, d);
  }
  // centres of n^dim cells, the first coordinate fastest
  static std::array<double, 3> grid(long j, int n, int dim) {
    std::array<double, 3> q{0.5, 0.5, 0.5};
    for (int c = 0; c < dim; ++c) {
      q[c] = (j % n + 0.5) / n;
      j /= n;
    }
    return q;
  }
  struct Bins {
    double lo, hi, de;
    int n;
    // bins an energy may be counted in
    std::pair<int, int> at(double e) const {
      double y = (e - lo) / de;
      auto in  = [&](double z) { return std::min(n - 1, std::max(0, (int)std::floor(z))); };
      return {in(y - 1e-7), in(y + 1e-7)};
    }
  };
  void dos(int s, Draw &d) {
    auto const &T = *tb[s];
    auto const &x = *m[s];
    int nk = (int)d.i(1, x.dim == 3 ? 4 : 7), ne = (int)d.i(1, 12);
    long N = 1;
    for (int c = 0; c < x.dim; ++c) N *= nk;
    struct Ev {
      double e;
      std::vector<double> w;
    };
    std::vector<Ev> ev;
    for (long j = 0; j < N; ++j) {
      auto q      = grid(j, nk, x.dim);
      auto [e, v] = nda::linalg::eigenelements(hmat(x, q.data()));
      for (int l = 0; l < x.norb; ++l) {
        Ev y{e(l), {}};
        for (int a = 0; a < x.norb; ++a) y.w.push_back(std::norm(v(a, l)));
        ev.push_back(y);
      }
    }
    double lo = INFINITY, hi = -INFINITY;
    for (auto const &y : ev) lo = std::min(lo, y.e), hi = std::max(hi, y.e);
    bool flat = hi - lo < 1e-9 * x.scale();
    nda::array<double, 1> eps;
    nda::array<double, 2> rho;
    bool no = false;
    auto call = [&] { std::tie(eps, rho) = triqs::lattice::dos(T, nk, ne); };
    if (flat) {
      no = refused(call);
      sim::probe("flat band");
      return; // (there is no density to compare with)
    }
    under(call);
    (void)no;
    if (eps.shape()[0] != ne || rho.shape() != std::array<long, 2>{ne, x.norb}) FAIL("shape", "dos has another shape");
    double de = (hi - lo) / ne;
    for (int i = 0; i < ne; ++i) near(eps(i), lo + (i + 0.5) * de, 1e-9 * x.scale(), "energies of dos", i);
    Bins B{lo, hi, de, ne};
    for (int a = 0; a < x.norb; ++a) {
      double tot = 0;
      std::vector<double> mn(ne), mx(ne);
      for (auto const &y : ev) {
        auto [p, q] = B.at(y.e);
        if (p == q) mn[p] += y.w[a], mx[p] += y.w[a];
        else mx[p] += y.w[a], mx[q] += y.w[a];
      }
      for (int i = 0; i < ne; ++i) {
        double r = rho(i, a) * N * de;
        tot += r / N;
        // (degenerate states may be mixed: only their sum over the orbitals is determined, but they share a bin)
        if (!(r >= mn[i] - 1e-6) || !(r <= mx[i] + 1e-6)) FAIL("dos", "orbital %d has %.9g states in bin %d of %d, expected %.9g to %.9g", a, r, i, ne, mn[i], mx[i]);
      }
      if (!(std::abs(tot - 1) < 1e-9)) FAIL("dos", "the density of orbital %d integrates to %.12g", a, tot);
    }
  }
  void patch(int s, Draw &d) {
    auto x = *m[s];
    std::optional<tight_binding> own;
    if (x.dim != 2 || x.norb != 1) {
      x = make_model(d, 2, 1);
      own.emplace(build(x));
    }
    auto const &T = own ? *own : *tb[s];
    int nt = (int)d.i(1, 3), nd = (int)d.i(1, 4), ne = (int)d.i(2, 9);
    nda::array<double, 2> tri(3 * nt, 2);
    for (int i = 0; i < 3 * nt; ++i)
      for (int c = 0; c < 2; ++c) tri(i, c) = d.p(0.4) ? 0.5 * d.i(-1, 2) : d.u(-1, 1);
    struct Pt {
      double e, w;
    };
    std::vector<Pt> pts;
    double lo = INFINITY, hi = -INFINITY, area = 0;
    for (int t = 0; t < nt; ++t) {
      auto P = [&](int i, int c) { return tri(3 * t + i, c); };
      double A = std::abs(0.5 * ((P(1, 0) - P(0, 0)) * (P(2, 1) - P(0, 1)) - (P(1, 1) - P(0, 1)) * (P(2, 0) - P(0, 0))));
      area += A;
      auto add = [&](double s, double u) { // in units of the sides
        double k[3] = {0, 0, 0};
        for (int c = 0; c < 2; ++c) k[c] = P(0, c) + s * (P(1, c) - P(0, c)) + u * (P(2, c) - P(0, c));
        double e = x.h(k)[0].real();
        pts.push_back({e, A / (nd * nd)});
        lo = std::min(lo, e), hi = std::max(hi, e);
      };
      for (int i = 0; i < nd; ++i)
        for (int j = 0; j < nd - i; ++j) {
          add((i + 1 / 3.) / nd, (j + 1 / 3.) / nd);                       // the triangle that points as the large one
          if (j < nd - i - 1) add((i + 2 / 3.) / nd, (j + 2 / 3.) / nd); // and the other one
        }
    }
    nda::array<double, 1> eps, rho;
    auto call = [&] { std::tie(eps, rho) = triqs::lattice::dos_patch(T, tri, ne, nd); };
    if (hi - lo < 1e-9 * x.scale()) {
      refused(call);
      sim::probe("flat patch");
      return;
    }
    under(call);
    if (eps.shape()[0] != ne || rho.shape()[0] != ne) FAIL("shape", "dos_patch has another shape");
    for (int i = 0; i < ne; ++i) near(eps(i), lo + i * (hi - lo) / (ne - 1), 1e-9 * x.scale(), "energies of dos_patch", i);
    Bins B{lo, hi, (hi - lo) / ne, ne};
    std::vector<double> mn(ne), mx(ne);
    for (auto const &y : pts) {
      auto [p, q] = B.at(y.e);
      if (p == q) mn[p] += y.w, mx[p] += y.w;
      else mx[p] += y.w, mx[q] += y.w;
    }
    double tot = 0;
    for (int i = 0; i < ne; ++i) {
      double r = rho(i) * B.de;
      tot += r;
      if (!(r >= mn[i] - 1e-7) || !(r <= mx[i] + 1e-7)) FAIL("dos", "dos_patch has the weight %.9g in bin %d of %d, expected %.9g to %.9g", r, i, ne, mn[i], mx[i]);
    }
    if (!(std::abs(tot - area) < 1e-9 * (area + 1))) FAIL("dos", "the density of the patch integrates to %.12g, its area is %.12g", tot, area);
  }
  void geo(int s, Draw &d) {
    auto const &T  = *tb[s];
    auto const &x  = *m[s];
    auto const &bl = T.lattice();
    std::optional<brillouin_zone> bz_;
    under([&] { bz_.emplace(bl); });
    auto const &bz = *bz_;
    if (bz.ndim() != x.dim || !(bz.lattice() == bl) || !(bz == brillouin_zone{bl}) || bz != brillouin_zone{bl} || !(bravais_lattice(bz) == bl)) FAIL("brillouin-zone", "does not know its lattice");
    auto const &u = bl.units();
    auto const &K = bz.units();
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        double p = 0, q = 0;
        for (int c = 0; c < 3; ++c) p += u(i, c) * K(j, c), q += bz.reciprocal_matrix()(i, c) * bz.reciprocal_matrix_inv()(c, j);
        if (!(std::abs(p - (i == j) * 2 * M_PI) < 1e-10)) FAIL("brillouin-zone", "unit vector %d and reciprocal vector %d have the product %.12g", i, j, p);
        if (!(std::abs(q - (i == j)) < 1e-10)) FAIL("brillouin-zone", "the inverse of the reciprocal matrix is not its inverse");
      }
    // coordinates
    nda::vector<double> v(3), w(x.dim);
    std::array<long, 3> a, b;
    for (int c = 0; c < 3; ++c) v(c) = d.u(-2, 2), a[c] = c < x.dim ? d.i(-4, 4) : 0, b[c] = c < x.dim ? d.i(-4, 4) : 0;
    for (int c = 0; c < x.dim; ++c) w(c) = v(c);
    auto sum = [&](auto const &M, auto const &y, int c) {
      double r = 0;
      for (int i = 0; i < x.dim; ++i) r += M(i, c) * y[i];
      return r;
    };
    nda::vector<double> r1, r2, r3, back;
    under([&] {
      r1   = bl.lattice_to_real_coordinates(v);
      r2   = T.lattice_to_real_coordinates(a);
      r3   = bz.lattice_to_real_coordinates(w);
      back = bl.real_to_lattice_coordinates(bl.lattice_to_real_coordinates(v));
    });
    if (r1.size() != 3 || r2.size() != 3 || r3.size() != 3) FAIL("shape", "coordinates have %ld, %ld, %ld components", r1.size(), r2.size(), r3.size());
    for (int c = 0; c < 3; ++c) {
      near(r1(c), sum(u, w, c), 1e-11, "lattice_to_real_coordinates", c);
      near(r2(c), sum(u, a, c), 1e-11, "lattice_to_real_coordinates of integers", c);
      near(r3(c), sum(K, w, c), 1e-10, "lattice_to_real_coordinates of a momentum", c);
    }
    for (int c = 0; c < x.dim; ++c) near(back(c), v(c), 1e-10, "coordinates there and back", c);
    if (x.dim == 3) {
      auto q = bz.real_to_lattice_coordinates(r3);
      for (int c = 0; c < 3; ++c) near(q(c), w(c), 1e-10, "coordinates of a momentum there and back", c);
    }
    // points
    using P = bravais_lattice::point_t;
    P p(a, &bl), q(b, &bl);
    auto pt = [&](P const &y, std::array<long, 3> const &e, char const *what) {
      if (y.index() != e || &y.lattice() != &bl) FAIL("points", "%s: the point has another index", what);
      auto rv = nda::vector<double>(y);
      for (int c = 0; c < 3; ++c) near(rv(c), sum(u, e, c), 1e-11, what, c), near(y[c], sum(u, e, c), 1e-11, what, c);
    };
    pt(p, a, "a point");
    pt(p + q, {a[0] + b[0], a[1] + b[1], a[2] + b[2]}, "sum of points");
    pt(p - q, {a[0] - b[0], a[1] - b[1], a[2] - b[2]}, "difference of points");
    pt(-p, {-a[0], -a[1], -a[2]}, "opposite point");
    pt(p, a, "a point again");
    // grid
    int n = (int)d.i(1, 4);
    long N = 1;
    for (int c = 0; c < x.dim; ++c) N *= n;
    triqs::lattice::grid_generator g(x.dim, n);
    if (g.size() != N) FAIL("grid", "a grid of %d points in %d dimensions has the size %d", n, x.dim, g.size());
    long j = 0;
    for (; g; ++g) {
      if (g.index() != j || j >= N) FAIL("grid", "point %ld of the grid has the index %d", j, g.index());
      auto e = grid(j, n, x.dim);
      auto v = *g;
      for (int c = 0; c < x.dim; ++c) near(v(c), e[c], 1e-12, "grid", c);
      ++j;
    }
    if (j != N) FAIL("grid", "the grid ends after %ld of %ld points", j, N);
    std::ostringstream os;
    os << T << bz;
  }

  void refuse(int s, Draw &d) {
    auto x    = make_model(d);
    int which = (int)d.i(0, 10);
    Args a(x);
    auto mk = [&] { tb[s] = tight_binding(bravais_lattice(a.units, a.pos, a.names), a.R, a.t); };
    auto no = [&](char const *what, auto f) {
      if (!refused(f)) FAIL("not-refused", "%s was accepted", what);
      sim::probe("refused");
    };
    size_t j = d.i(0, (long)a.R.size() - 1);
    switch (which) {
      case 0:
        if (d.p(0.5)) a.R.push_back(a.R[0]);
        else a.t.push_back(a.t[0]);
        return no("a different number of displacements and matrices", mk);
      case 1: {
        nda::vector<long> v(x.dim + (d.p(0.5) ? 1 : -1));
        v()    = 0;
        a.R[j] = v;
        return no("a displacement of another dimension", mk);
      }
      case 2:
      case 3: {
        nda::matrix<cd> t(x.norb + (which == 2), x.norb + (which == 3));
        t()    = 0;
        a.t[j] = t;
        return no("a matrix that does not fit the orbitals", mk);
      }
      case 4: {
        bool z = true;
        for (long y : x.R[j]) z = z && y == 0;
        if (z) return;
        a.R.erase(a.R.begin() + j);
        a.t.erase(a.t.begin() + j);
        return no("a hopping without its opposite", mk);
      }
      case 5: {
        long p = d.i(0, x.norb - 1), q = d.i(0, x.norb - 1);
        double e = d.of<double>({1e-6, 1e-2, 1.0});
        a.t[j](p, q) += d.p(0.5) ? cd(0, e) : p == q && std::all_of(x.R[j].begin(), x.R[j].end(), [](long y) { return y == 0; }) ? cd(0, e) : cd(e);
        return no("hoppings that are not hermitian", mk);
      }
      case 6: {
        if (x.dim == 1) a.units(0, 0) = 0;
        else
          for (int c = 0; c < (x.form ? 3 : x.dim); ++c) a.units(1, c) = a.units(0, c) * (d.p(0.5) ? 2 : 2);
        return no("a lattice of linearly dependent vectors", mk);
      }
      case 7: {
        nda::matrix<double> u(4, 4);
        u() = 0;
        for (int c = 0; c < 4; ++c) u(c, c) = 1;
        return no("a lattice in four dimensions", [&] { bravais_lattice bl(u, a.pos, a.names); });
      }
      case 8: {
        if (x.dim == 2) return;
        auto t = build(x);
        nda::array<double, 2> tri(3, 2);
        tri = 0.25;
        return no("dos_patch of a lattice which is not two dimensional", [&] { triqs::lattice::dos_patch(t, tri, 4, 2); });
      }
      case 9: {
        x      = make_model(d, 2, 1);
        auto t = build(x);
        nda::array<double, 2> tri(3, 3);
        tri = 0.25;
        return no("dos_patch of triangles in three dimensions", [&] { triqs::lattice::dos_patch(t, tri, 4, 2); });
      }
      default: { // a band without any dispersion has no density in terms of bins
        for (auto &y : x.t)
          for (auto &z : y) z = 0;
        for (auto &y : a.t) y() = 0;
        if (d.p(0.5) || x.dim != 2 || x.norb != 1) {
          auto t = build(x);
          return no("dos of a flat band", [&] { triqs::lattice::dos(t, 2, 3); });
        }
        auto t = build(x);
        nda::array<double, 2> tri(3, 2);
        tri = 0.25;
        tri(0, 0) = 0;
        tri(1, 1) = 0;
        return no("dos_patch of a flat band", [&] { triqs::lattice::dos_patch(t, tri, 4, 2); });
      }
    }
  }

  void save(int s, int f, Draw &d) {
    auto &w = W();
    auto n  = "tb" + std::to_string(f);
    w.ok[f] = 2;
    bool bz = d.p(0.3);
    try {
      under([&] {
        h5::file file("lattice.h5", 'a');
        h5_write(h5::group(file), n, *tb[s]);
        if (bz) h5_write(h5::group(file), n + "bz", brillouin_zone{tb[s]->lattice()});
      });
      w.ok[f]    = 1;
      w.saved[f] = m[s];
      sim::probe("saved");
    } catch (h5::io_error const &) { sim::probe("save failed"); }
    auto f0           = h5::oracle_access;
    h5::oracle_access = true;
    if (w.ok[f] == 1) { // formats, and what older versions wrote
      h5::group g(h5::file("lattice.h5", 'a'));
      if (h5::read_hdf5_format(g.open_group(n)) != "tight_binding") FAIL("format", "the format of a Hamiltonian in the file is another one");
      if (h5::read_hdf5_format(g.open_group(n).open_group("bravais_lattice")) != "bravais_lattice") FAIL("format", "the format of a lattice in the file is another one");
      if (d.p(0.2)) {
        auto &x = *w.saved[f];
        auto b  = g.open_group(n).open_group("bravais_lattice");
        b.n->kids.erase("atom_orb_name");
        x.names.assign(x.norb, "");
        if (x.norb == 1 && d.p(0.5)) {
          b.n->kids.erase("atom_orb_pos");
          x.pos = {{0, 0, 0}};
        }
        sim::probe("old file");
      }
    }
    h5::oracle_access = f0;
  }
  void load(int s, int f) {
    auto &w = W();
    auto n  = "tb" + std::to_string(f);
    try {
      std::optional<tight_binding> t;
      std::optional<brillouin_zone> z;
      under([&] {
        h5::file file("lattice.h5", 'r');
        t.emplace(h5::h5_read<tight_binding>(h5::group(file), n));
      });
      if (w.ok[f] == 0) FAIL("restored", "a Hamiltonian was read which was never saved");
      if (w.ok[f] == 1) {
        // a lattice and a zone read into others
        auto f0           = h5::oracle_access;
        h5::oracle_access = true;
        h5::group g(h5::file("lattice.h5", 'r'));
        bravais_lattice bl;
        brillouin_zone bz;
        h5_read(g.open_group(n), "bravais_lattice", bl);
        check_lattice(bl, *w.saved[f], "a lattice read from a file");
        h5_write(g, "zone", brillouin_zone{bl});
        h5_read(g, "zone", bz);
        if (!(bz == brillouin_zone{bl})) FAIL("restored", "a Brillouin zone differs after it was read");
        h5::oracle_access = f0;
        tb[s] = std::move(t);
        m[s]  = w.saved[f];
        sim::probe("restored");
      }
    } catch (std::bad_alloc const &) { throw; } catch (h5::io_error const &) { sim::probe("load failed"); } catch (std::exception const &e) {
      h5::oracle_access = false;
      if (w.ok[f] == 1) FAIL("restored", "a Hamiltonian that was saved cannot be read: %s", e.what());
      sim::probe("nothing to load");
    }
  }
};

EXPORT void wl_setup() {
  static World *w = nullptr;
  delete w;
  w            = new World;
  sim::world() = w;
}
EXPORT void wl_finish() {}
EXPORT void wl_rank() {
  auto const &P     = sim::plan();
  h5::oracle_access = false;
  Lat L;
  auto *old = std::cerr.rdbuf(nullptr);
  for (; W().pc < (int)P.ops.size();) {
    int k          = W().pc++;
    auto const &op = P.ops[k];
    sim::step(100);
    where = op.name;
    sim::trace("%s %ld %ld %ld", op.name.c_str(), (long)op.arg(0), (long)op.arg(1), (long)op.arg(2));
    arm_n = 0;
    for (auto const &f : P.faults)
      if (f.kind != "io" && f.arg(0) == (int64_t)k) {
        arm_kind = f.kind;
        arm_n    = f.arg(1);
      }
    bool armed = arm_n > 0;
    try {
      L.run(op);
    } catch (std::bad_alloc const &) {
      if (!armed) throw;
      sim::fired(arm_kind == "new" ? "new" : "alloc");
      where += " (an allocation failed)";
    }
    std::cerr.clear();
    L.check();
    sim::probe(("op-" + op.name).c_str());
  }
  std::cerr.rdbuf(old);
}
