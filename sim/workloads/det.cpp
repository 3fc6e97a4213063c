// Workload: determinants of growing and shrinking matrices (det_manip): tried, completed and rejected operations, refused
// requests, exceptions of the user's function, copies, moves and swaps with an operation pending, checkpoints, crashes.
// Real code: triqs/det_manip/det_manip.hpp. Oracle: the lists of x and y; the matrix rebuilt from them, its determinant and
// inverse in extended precision, with a bound for the rounding errors accumulated so far.
#include "sim.hpp"
#include <h5/h5.hpp>
#include <nda/h5.hpp>
#include <triqs/det_manip.hpp>
#include <cmath>
#include <iostream>
#include <optional>
#include <sstream>

#define EXPORT extern "C" __attribute__((visibility("default")))
enum { ANY = 0, D01 = 1, D02 = 2 };
static bool on(int p) {
  int64_t w = sim::cfg("prop");
  return w == 0 || w == p;
}
#define FAIL(p, cls, ...)                                                                                                                            \
  do {                                                                                                                                               \
    if (on(p)) sim::violation(cls, __VA_ARGS__);                                                                                                     \
  } while (0)

using ld       = long double;
using cld      = std::complex<ld>;
using dcomplex = std::complex<double>;

// ================================================================= plan generation
EXPORT void wl_generate(sim::Rng &g, sim::Plan &p) {
  int64_t prop   = p.cfg.count("prop") ? p.cfg["prop"] : 0;
  p.cfg["ranks"] = 1;
  p.cfg["type"]  = g.range(0, 1);
  p.cfg["init"]  = g.chance(0.3) ? 0 : g.chance(0.4) ? 1 : g.range(2, 12);
  p.cfg["rinit"] = g.chance(0.5) ? 0 : g.range(1, 6); // restored into objects made this way
  p.cfg["nchk"]  = g.chance(0.3) ? 100 : g.range(0, 6);
  p.cfg["wild"]  = g.chance(prop == D01 ? 0.3 : 0.1);
  int n          = (int)g.range(4, g.chance(0.2) ? 80 : 30);
  auto R         = [&] { return (int64_t)g.below(1 << 20); };
  static const std::vector<std::string> tries{"ins", "ins", "ins", "insk", "insk", "ins2", "rem", "rem", "remk", "rem2", "col", "row", "colrow", "refill", "insf"};
  static const std::vector<std::string> cuts{"c_ins", "c_end", "c_ins2", "c_end2", "c_rem", "c_rend", "c_rem2", "c_rend2", "c_col", "c_row", "c_colrow"};
  for (int i = 0; i < n; ++i) {
    double u  = g.uniform();
    int64_t s = g.chance(0.8) ? 0 : 1;
    bool grow = i < 8 && g.chance(0.6);
    auto tr   = [&] { p.ops.push_back({0, grow ? (g.chance(0.5) ? "ins" : "insk") : g.pick(tries), {s, R(), R(), R(), R(), R(), R()}}); };
    if (u < 0.5) {
      tr();
      double v = g.uniform(), w = prop == D02 ? 0.45 : 0.85;
      if (v < w)
        p.ops.push_back({0, g.chance(0.75) ? "complete" : "reject", {s}});
      else if (v < 0.7)
        p.ops.push_back({0, "swap", {s, R()}});
    } else if (u < 0.55)
      p.ops.push_back({0, "complete", {s}});
    else if (u < 0.57)
      p.ops.push_back({0, "reject", {s}});
    else if (u < 0.66)
      p.ops.push_back({0, g.pick(cuts), {s, R(), R(), R(), R(), R(), R()}});
    else if (u < 0.72)
      p.ops.push_back({0, g.chance(0.5) ? "srow" : "scol", {s, R(), R()}});
    else if (u < 0.77)
      p.ops.push_back({0, "roll", {s, g.range(0, 4)}});
    else if (u < 0.80)
      p.ops.push_back({0, "reserve", {s, g.range(0, 20), g.range(1, 4)}});
    else if (u < 0.83)
      p.ops.push_back({0, "regen", {s}});
    else if (u < 0.84)
      p.ops.push_back({0, "clear", {s}});
    else if (u < 0.86)
      p.ops.push_back({0, "construct", {s, g.range(0, 6), R()}});
    else if (u < 0.88)
      p.ops.push_back({0, "param", {s, g.range(0, 3), g.range(0, 5)}});
    else if (prop == D01) {
      tr();
      p.ops.push_back({0, "complete", {s}});
    } else if (u < 0.92)
      p.ops.push_back({0, "bad", {s, g.range(0, 15), R(), R()}});
    else if (u < 0.95)
      p.ops.push_back({0, g.chance(0.6) ? "save" : "restore", {}});
    else
      p.ops.push_back({0, "copy", {s, g.range(0, 5)}});
  }
  if (prop != D01) {
    int nf = (int)g.range(0, 3);
    for (int i = 0; i < nf; ++i) {
      if (g.chance(0.5))
        p.faults.push_back({"throw", {g.range(1, 400)}});
      else
        p.faults.push_back({"io", {0, g.range(1, 120), g.range(0, 1)}});
    }
  }
}

// ================================================================= the user's function
struct user_error : std::exception {
  char const *what() const noexcept override { return "user's function failed"; }
};
static long f_calls = 0;
static bool quiet   = false; // the oracle's own evaluations
template <typename T> T eval(int id, long x, double y) {
  if (x & (1l << 40)) {
    auto a = eval<T>(id, x & ~(1l << 40), y), b = eval<T>(id, x ^ (3l << 40), y);
    return a + 1e-7 * b;
  }
  uint64_t yb;
  memcpy(&yb, &y, 8);
  sim::Rng g(sim::mix(sim::plan().seed * 8 + id, sim::mix((uint64_t)x, yb)));
  auto gauss = [&] { return g.uniform() + g.uniform() + g.uniform() + g.uniform() - 2; };
  if constexpr (std::is_same_v<T, double>)
    return gauss() * 2;
  else {
    double a = gauss();
    return {a, gauss()};
  }
}
template <typename T> struct Fn {
  int id = 0;
  T operator()(long const &x, double y) const {
    if (!quiet) {
      ++f_calls;
      for (auto const &f : sim::plan().faults)
        if (f.kind == "throw" && f.arg(0) == f_calls) {
          sim::fired("throw");
          throw user_error{};
        }
    }
    return eval<T>(id, x, y);
  }
};

// ================================================================= model
struct Lin { // a matrix in extended precision
  int n = 0;
  std::vector<cld> a, inv;
  cld det{1};
  ld na = 1, ni = 1; // Frobenius norms
  bool singular = false;
};
template <typename T> Lin lin(int id, std::vector<long> const &x, std::vector<double> const &y) {
  Lin L;
  int n = L.n = (int)x.size();
  if (n == 0) return L;
  L.a.resize(n * n);
  L.inv.assign(n * n, 0);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) L.a[i * n + j] = (cld)eval<T>(id, x[i], y[j]);
  auto a = L.a;
  for (int i = 0; i < n; ++i) L.inv[i * n + i] = 1;
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int i = c + 1; i < n; ++i)
      if (std::abs(a[i * n + c]) > std::abs(a[p * n + c])) p = i;
    if (p != c) {
      L.det = -L.det;
      for (int j = 0; j < n; ++j) {
        std::swap(a[p * n + j], a[c * n + j]);
        std::swap(L.inv[p * n + j], L.inv[c * n + j]);
      }
    }
    cld d = a[c * n + c];
    L.det *= d;
    if (std::abs(d) < 1e-17L) {
      L.singular = true;
      L.det      = 0;
      L.ni       = 1e30L;
      break;
    }
    for (int j = 0; j < n; ++j) {
      a[c * n + j] /= d;
      L.inv[c * n + j] /= d;
    }
    for (int i = 0; i < n; ++i)
      if (i != c) {
        cld r = a[i * n + c];
        for (int j = 0; j < n; ++j) {
          a[i * n + j] -= r * a[c * n + j];
          L.inv[i * n + j] -= r * L.inv[c * n + j];
        }
      }
  }
  L.na = 0;
  for (auto &z : L.a) L.na += std::norm(z);
  L.na = std::max<ld>(std::sqrt(L.na), 1e-6);
  if (!L.singular) {
    L.ni = 0;
    for (auto &z : L.inv) L.ni += std::norm(z);
    L.ni = std::sqrt(L.ni);
  }
  return L;
}
static const ld EPS = 2.3e-16L;

struct Pending {
  bool any = false, ratio_only = false, refill = false;
  int k    = 1;
  std::vector<long> x;
  std::vector<double> y;
};
struct Model {
  int id = 0;
  std::vector<long> x;
  std::vector<double> y;
  ld D = 0, d = 0; // bounds: backward error of the inverse, relative error of the determinant
  uint64_t cnt = 0, nchk = 100;
  double thr = -1, warn = 1e-8, err = 1e-5;
  Pending p;
};
struct World {
  int pc = 0, saves = 0;
  bool valid = false;
  Model saved[2], tmp[2];
};
static World &W() { return *(World *)sim::world(); }

template <typename T> struct Proc {
  using DM = triqs::det_manip::det_manip<Fn<T>>;
  std::optional<DM> dm[2];
  Model m[2];
  std::ostringstream sink;

  static cld c(T const &z) { return cld(z); }
  Lin L(Model const &q) { return lin<T>(q.id, q.x, q.y); }

  // new ids; sometimes one that is in use (singular) or nearly equal to one (ill conditioned)
  long newx(Model const &q, int64_t r) {
    if (!q.x.empty() && sim::cfg("wild") && r % 11 < 3) {
      long b = q.x[(r >> 5) % q.x.size()];
      return r % 11 == 0 ? b : (b | (1l << 40)) ^ ((r >> 7) << 41);
    }
    return r % 100003;
  }
  double newy(Model const &, int64_t r) { return (double)(r % 100003) * 0.25; }

  void accuracy(Model &q, Lin const &a, Lin const &b, int k) { // one update from a to b
    ld n = std::max(a.na, b.na), u = 1 + n * a.ni, v = 1 + n * b.ni;
    int N = std::max(a.n, b.n) + 1;
    ld dE = 8 * N * k * EPS * n * u * v * (u + v);
    q.D += dE;
    q.d += 8 * N * k * EPS * u * v + N * b.ni * dE;
  }
  void exact(Model &q, Lin const &b) { // recomputed from scratch
    q.D = 16 * (b.n + 1) * EPS * b.na * (1 + b.na * b.ni);
    q.d = b.n * b.ni * q.D + 16 * EPS * b.n;
  }
  ld inv_tol(Model const &q, Lin const &b) { return 4 * b.ni * b.ni * q.D + 1e-13L * b.ni; }
  bool precise(Model const &q, Lin const &b) { return !b.singular && b.ni * q.D < 1e-3L && q.d < 1e-3L; }

  void check(int prop, int s, char const *when) {
    auto &d = *dm[s];
    auto &q = m[s];
    int n   = (int)q.x.size();
    if (d.size() != n) FAIL(prop, "size", "%s: size() is %ld, expected %d", when, d.size(), n);
    auto gx = d.get_x();
    auto gy = d.get_y();
    if (gx != q.x) FAIL(prop, "x-list", "%s: get_x() is not the list of x values (size %zu, expected %d)", when, gx.size(), n);
    if (gy != q.y) FAIL(prop, "y-list", "%s: get_y() is not the list of y values (size %zu, expected %d)", when, gy.size(), n);
    for (int i = 0; i < n; ++i) {
      if (d.get_x(i) != q.x[i]) FAIL(prop, "x-list", "%s: get_x(%d) is not that value", when, i);
      if (d.get_y(i) != q.y[i]) FAIL(prop, "y-list", "%s: get_y(%d) is not that value", when, i);
    }
    if ((int)d.get_x_internal_order().size() != n || (int)d.get_y_internal_order().size() != n) FAIL(prop, "x-list", "%s: internal lists have other sizes", when);
    if (d.get_singular_threshold() != q.thr || d.get_precision_warning() != q.warn || d.get_precision_error() != q.err || d.get_n_operations_before_check() != (double)q.nchk)
      FAIL(prop, "settings", "%s: threshold %g (%g), warning %g (%g), error %g (%g), operations before check %g (%lu)", when, d.get_singular_threshold(), q.thr, d.get_precision_warning(), q.warn,
           d.get_precision_error(), q.err, d.get_n_operations_before_check(), (unsigned long)q.nchk);
    if (d.get_function().id != q.id) FAIL(prop, "function", "%s: another function", when);
    auto b = L(q);
    quiet  = true;
    auto M = d.matrix();
    quiet  = false;
    if (M.shape()[0] != n || M.shape()[1] != n) FAIL(prop, "matrix", "%s: matrix() is %ldx%ld, expected %d", when, M.shape()[0], M.shape()[1], n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (c(M(i, j)) != b.a[i * n + j]) FAIL(prop, "matrix", "%s: matrix()(%d,%d) is not f(x_%d,y_%d)", when, i, j, i, j);
    sim::state(sim::mix(n, sim::mix(q.p.any, (uint64_t)std::min<ld>(60, std::log10(1 + b.ni) * 10))));
    if (!precise(q, b)) {
      sim::probe("too ill conditioned to compare");
      return;
    }
    ld t = inv_tol(q, b);
    auto I = d.inverse_matrix();
    auto J = d.inverse_matrix_internal_order();
    if (I.shape()[0] != n || I.shape()[1] != n || J.shape()[0] != n || J.shape()[1] != n) FAIL(prop, "inverse", "%s: inverse_matrix() has the wrong shape", when);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (!(std::abs(c(I(i, j)) - b.inv[i * n + j]) <= t) || !(std::abs(c(d.inverse_matrix(i, j)) - b.inv[i * n + j]) <= t))
          FAIL(prop, "inverse", "%s: inverse_matrix(%d,%d) of %d is %g, expected %Lg (tolerance %Lg)", when, i, j, n, std::abs(I(i, j)), std::abs(b.inv[i * n + j]), t);
    // internal order: the same inverse, for the matrix of the internal lists
    auto ix = d.get_x_internal_order();
    auto iy = d.get_y_internal_order();
    auto bi = lin<T>(q.id, ix, iy);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (!(std::abs(c(J(i, j)) - bi.inv[i * n + j]) <= t) || J(i, j) != d.inverse_matrix_internal_order(i, j)) FAIL(prop, "inverse", "%s: inverse in the internal order is wrong at (%d,%d)", when, i, j);
    cld tr{0};
    int cnt = 0;
    foreach (d, [&](long x, double y, T const &v) {
      tr += c(eval<T>(q.id, x, y)) * c(v);
      ++cnt;
    })
      ;
    if (cnt != n * n || !(std::abs(tr - cld(n)) <= 4 * n * b.na * t + 1e-10L)) FAIL(prop, "foreach", "%s: foreach met %d of %d elements, the trace of M M^-1 is %Lg of %d", when, cnt, n * n, std::abs(tr), n);
    determinant(prop, s, when, b);
  }
  void determinant(int prop, int s, char const *when, Lin const &b) {
    auto &d = *dm[s];
    auto &q = m[s];
    ld ad   = std::abs(b.det);
    bool low = q.thr > 0 && ad < q.thr * (1 + 4 * q.d), must = q.thr > 0 && ad < q.thr * (1 - 4 * q.d);
    if (q.x.empty()) low = low || q.thr >= 1;
    try {
      quiet  = true;
      auto z = d.determinant();
      quiet  = false;
      if (must) FAIL(prop, "singular", "%s: determinant() is returned though |det| = %Lg is below the threshold %g", when, ad, q.thr);
      if (!(std::abs(c(z) - b.det) <= (4 * q.d + 1e-13L) * ad))
        FAIL(prop, "determinant", "%s: determinant() of %zu is %g%+gi, expected %Lg%+Lgi (tolerance %Lg)", when, q.x.size(), std::real(z), std::imag(dcomplex(z)), b.det.real(), b.det.imag(), (4 * q.d + 1e-13L) * ad);
    } catch (triqs::runtime_error const &e) {
      quiet = false;
      if (!low) FAIL(prop, "singular", "%s: determinant() = %Lg throws: %s", when, ad, e.what());
      sim::probe("determinant below the threshold");
    }
  }

  // ---- requests
  template <typename F> void attempt(int s, Pending p, F &&call) { // a try_xxx
    auto &q = m[s];
    auto a = L(q), b = lin<T>(q.id, p.x, p.y);
    T r;
    try {
      r = call();
    } catch (user_error const &) {
      sim::probe("the function failed in a try");
      sim::trace("try failed");
      dm[s]->reject_last_try();
      q.p = {};
      check(D02, s, "after a failed try");
      return;
    } catch (std::exception const &e) { FAIL(D01, "try-throws", "a valid try throws: %s", e.what()); return; }
    p.any = true;
    q.p   = p;
    sim::trace("ratio %.9g", std::real(r));
    ratio(s, r, a, b, p.k);
  }
  void ratio(int s, T r, Lin const &a, Lin const &b, int k) {
    auto &q = m[s];
    if (!precise(q, a)) return;
    ld n = std::max(a.na, b.na), u = 1 + n * a.ni, v = 1 + n * b.ni;
    int N    = std::max(a.n, b.n) + 1;
    ld rel   = 1e-13L + 16 * (k * EPS * N * u * v + N * (a.ni + b.ni) * q.D + (q.p.refill ? q.d : 0));
    cld want = b.det / a.det;
    ld tol   = rel < 0.01L ? rel * std::abs(want) : 1e-5L * std::pow(N * (1 + n) * u, (ld)k);
    if (q.p.refill && rel >= 0.01L) tol = 1e-5L * std::pow((1 + n) * N, (ld)N) / std::abs(a.det);
    if (!(std::abs(c(r) - want) <= tol))
      FAIL(D01, "ratio", "the ratio of determinants returned is %g%+gi, expected %Lg%+Lgi (tolerance %Lg, from %d to %d rows)", std::real(r), std::imag(dcomplex(r)), want.real(), want.imag(), tol, a.n, b.n);
    if (rel >= 0.01L) sim::probe("nearly singular operation tried");
  }
  // what completing the pending operation does to the model; t: what happened
  template <typename F> void finish(int s, Pending const &p, F &&call, Lin const *ra = nullptr) {
    auto &q   = m[s];
    auto a    = ra ? *ra : L(q);
    auto b    = lin<T>(q.id, p.x, p.y);
    Model old = q;
    q.x       = p.x;
    q.y       = p.y;
    bool sing = b.singular || b.na * b.ni > 1e9L;
    if (p.refill || (p.x.empty() && 0)) {
      exact(q, b);
      q.d = q.d + 8 * EPS * b.na * b.ni * b.n;
    } else
      accuracy(q, a, b, p.k);
    if (b.n == 0) q.D = 0;
    ++q.cnt;
    q.p          = {};
    bool chk     = q.cnt > q.nchk;
    long calls   = f_calls;
    bool drift   = !precise(q, b) || 100 * (b.ni * q.D) > std::min(q.warn, q.err);
    ld ad        = std::abs(b.det);
    bool low     = q.thr > 0 && ad < q.thr * (1 + 4 * q.d + 1e-12L);
    try {
      call();
      if (chk && b.n > 0) {
        if (f_calls - calls < (long)b.n * b.n) FAIL(D01, "check-skipped", "%lu operations since the inverse was last recomputed, at most %lu were asked for", (unsigned long)q.cnt, (unsigned long)q.nchk);
        sim::probe("inverse recomputed");
        exact(q, b);
        q.cnt = 0;
      }
      sim::trace("completed n=%d", b.n);
    } catch (user_error const &) {
      sim::probe("the function failed in complete_operation");
      dm[s]->reject_last_try();
      after_failed_completion(s, old);
    } catch (triqs::runtime_error const &e) {
      if (!(chk && (drift || low || sing))) FAIL(D01, "complete-throws", "complete_operation() throws (%d rows, determinant %Lg, bound for the deviation %Lg): %s", b.n, ad, b.ni * q.D, e.what());
      sim::probe("deviation or singular matrix reported");
      dm[s]->reject_last_try();
      q.d += 1e-9L; // the determinant may be the old or the recomputed one
    } catch (std::exception const &e) {
      if (!sing && precise(old, a)) FAIL(D01, "complete-throws", "complete_operation() throws: %s", e.what());
      rebuild(s); // the inverse of a singular matrix
    }
  }
  void after_failed_completion(int s, Model const &old) { // either before or after the operation, but consistent
    if (dm[s]->size() == (long)old.x.size() && dm[s]->get_x() == old.x && dm[s]->get_y() == old.y) {
      auto cnt = m[s].cnt;
      m[s]     = old;
      m[s].cnt = cnt;
      m[s].p   = {};
    }
    check(D02, s, "after the function failed in complete_operation()");
  }
  void rebuild(int s) {
    auto id = m[s].id;
    dm[s].emplace(Fn<T>{id}, (long)sim::cfg("init"));
    m[s]    = Model{};
    m[s].id = id;
  }
  bool sane(int s) { // go on with matrices that can be judged
    auto b = L(m[s]);
    return !b.singular && b.na * b.ni < 1e13L;
  }

  // builds the pending operation for a request with valid arguments
  struct Req {
    Pending p;
    std::vector<long> i, j, x;
    std::vector<double> y;
  };
  Req req_insert(Model const &q, sim::Op const &o, int k) {
    Req r;
    long n = (long)q.x.size();
    sim::Rng g(o.arg(1) * 7919 + o.arg(2));
    auto pickset = [&] {
      std::vector<long> v;
      while ((int)v.size() < k) {
        long z = (long)g.below(n + k);
        if (std::find(v.begin(), v.end(), z) == v.end()) v.push_back(z);
      }
      return v;
    };
    r.i = pickset();
    r.j = pickset();
    for (int l = 0; l < k; ++l) {
      r.x.push_back(newx(q, (int64_t)g.below(1 << 30)));
      r.y.push_back(newy(q, (int64_t)g.below(1 << 30)));
    }
    auto put = [&](auto v, std::vector<long> const &pos, auto const &val) {
      std::vector<std::pair<long, int>> ord;
      for (int l = 0; l < k; ++l) ord.push_back({pos[l], l});
      std::sort(ord.begin(), ord.end());
      for (auto &[z, l] : ord) v.insert(v.begin() + z, val[l]);
      return v;
    };
    r.p.x = put(q.x, r.i, r.x);
    r.p.y = put(q.y, r.j, r.y);
    r.p.k = k;
    return r;
  }
  Req req_remove(Model const &q, sim::Op const &o, int k) {
    Req r;
    long n = (long)q.x.size();
    sim::Rng g(o.arg(1) * 7919 + o.arg(2));
    auto pickset = [&] {
      std::vector<long> v;
      while ((int)v.size() < k) {
        long z = (long)g.below(n);
        if (std::find(v.begin(), v.end(), z) == v.end()) v.push_back(z);
      }
      return v;
    };
    r.i      = pickset();
    r.j      = pickset();
    auto cut = [&](auto const &v, std::vector<long> const &pos) {
      auto w = v;
      w.clear();
      for (long z = 0; z < n; ++z)
        if (std::find(pos.begin(), pos.end(), z) == pos.end()) w.push_back(v[z]);
      return w;
    };
    r.p.x = cut(q.x, r.i);
    r.p.y = cut(q.y, r.j);
    r.p.k = k;
    return r;
  }
  Req req_change(Model const &q, sim::Op const &o, bool row, bool col) {
    Req r;
    long n = (long)q.x.size();
    r.i    = {(long)(o.arg(1) % n)};
    r.j    = {(long)(o.arg(2) % n)};
    r.x    = {newx(q, o.arg(3) * 31 + o.arg(5))};
    r.y    = {newy(q, o.arg(4) * 37 + o.arg(6))};
    r.p.x  = q.x;
    r.p.y  = q.y;
    if (row) r.p.x[r.i[0]] = r.x[0];
    if (col) r.p.y[r.j[0]] = r.y[0];
    r.p.k = 2;
    return r;
  }
  // is the outcome good enough to complete?
  bool fine(int s, Pending const &p) {
    auto b = lin<T>(m[s].id, p.x, p.y);
    ld lim = sim::cfg("wild") ? 1e10L : 300;
    return !b.singular && b.na * b.ni < lim && (int)p.x.size() < 12;
  }

  void op_try(sim::Op const &o) {
    int s   = (int)o.arg(0);
    auto &d = *dm[s];
    auto &q = m[s];
    if (q.p.any) return;
    long n = (long)q.x.size();
    if (o.name == "ins") {
      auto r = req_insert(q, o, 1);
      attempt(s, r.p, [&] { return d.try_insert(r.i[0], r.j[0], r.x[0], r.y[0]); });
    } else if (o.name == "insf") {
      auto r         = req_insert(q, o, 1);
      r.p.ratio_only = true;
      attempt(s, r.p, [&] { return d.try_insert_from_function(r.i[0], r.j[0], [&](long x) { return eval<T>(q.id, x, r.y[0]); }, [&](double y) { return eval<T>(q.id, r.x[0], y); }, eval<T>(q.id, r.x[0], r.y[0])); });
    } else if (o.name == "insk") {
      int k  = 1 + (int)(o.arg(3) % 4);
      auto r = req_insert(q, o, k);
      attempt(s, r.p, [&] { return d.try_insert_k(r.i, r.j, r.x, r.y); });
      sim::probe(k == 1 ? "k-insertion of 1" : k > 3 ? "k-insertion of 4" : "k-insertion");
    } else if (o.name == "ins2") {
      auto r = req_insert(q, o, 2);
      attempt(s, r.p, [&] { return d.try_insert2(r.i[0], r.i[1], r.j[0], r.j[1], r.x[0], r.x[1], r.y[0], r.y[1]); });
    } else if (o.name == "rem") {
      if (n < 1) return;
      auto r = req_remove(q, o, 1);
      attempt(s, r.p, [&] { return d.try_remove(r.i[0], r.j[0]); });
    } else if (o.name == "remk") {
      int k = 1 + (int)(o.arg(3) % 4);
      if (n < std::max(2, k)) return;
      auto r = req_remove(q, o, k);
      attempt(s, r.p, [&] { return d.try_remove_k(r.i, r.j); });
      sim::probe("k-removal");
    } else if (o.name == "rem2") {
      if (n < 2) return;
      auto r = req_remove(q, o, 2);
      attempt(s, r.p, [&] { return d.try_remove2(r.i[0], r.i[1], r.j[0], r.j[1]); });
    } else if (o.name == "col" || o.name == "row" || o.name == "colrow") {
      if (n < 1) return;
      bool row = o.name != "col", col = o.name != "row";
      auto r = req_change(q, o, row, col);
      attempt(s, r.p, [&] { return row && col ? d.try_change_col_row(r.i[0], r.j[0], r.x[0], r.y[0]) : row ? d.try_change_row(r.i[0], r.x[0]) : d.try_change_col(r.j[0], r.y[0]); });
    } else if (o.name == "refill") {
      Pending p;
      p.refill = true;
      int k    = (int)(o.arg(1) % 9);
      if (k > 5) k = (int)n; // same size
      sim::Rng g(o.arg(2));
      for (int l = 0; l < k; ++l) {
        p.x.push_back((long)g.below(100000));
        p.y.push_back((double)g.below(100000));
      }
      attempt(s, p, [&] { return d.try_refill(p.x, p.y); });
    }
    if (q.p.any) check(D02, s, "with an operation pending"); // nothing happened yet
  }
  void op_complete(int s) {
    auto &q = m[s];
    if (!q.p.any) { // allowed, does nothing
      dm[s]->complete_operation();
      check(D02, s, "after completing nothing");
      return;
    }
    if (q.p.ratio_only || !fine(s, q.p)) return op_reject(s);
    auto p = q.p;
    finish(s, p, [&] { dm[s]->complete_operation(); });
    check(D01, s, "after complete_operation()");
  }
  void op_reject(int s) {
    dm[s]->reject_last_try();
    m[s].p = {};
    check(D01, s, "after reject_last_try()");
  }
  void op_cut(sim::Op const &o) {
    int s   = (int)o.arg(0);
    auto &d = *dm[s];
    auto &q = m[s];
    if (q.p.any) return;
    long n = (long)q.x.size();
    Req r;
    std::function<T()> call;
    if (o.name == "c_ins") {
      r    = req_insert(q, o, 1);
      call = [&] { return d.insert(r.i[0], r.j[0], r.x[0], r.y[0]); };
    } else if (o.name == "c_ins2") {
      r    = req_insert(q, o, 2);
      call = [&] { return d.insert2(r.i[0], r.i[1], r.j[0], r.j[1], r.x[0], r.x[1], r.y[0], r.y[1]); };
    } else if (o.name == "c_end" || o.name == "c_end2") {
      int k = o.name == "c_end" ? 1 : 2;
      r     = req_insert(q, o, k);
      r.p.x = q.x;
      r.p.y = q.y;
      for (int l = 0; l < k; ++l) {
        r.p.x.push_back(r.x[l]);
        r.p.y.push_back(r.y[l]);
      }
      call = [&, k] { return k == 1 ? d.insert_at_end(r.x[0], r.y[0]) : d.insert2_at_end(r.x[0], r.x[1], r.y[0], r.y[1]); };
    } else if (o.name == "c_rem" || o.name == "c_rend") {
      if (n < 1) return;
      r = req_remove(q, o, 1);
      if (o.name == "c_rend") {
        r.p.x.assign(q.x.begin(), q.x.end() - 1);
        r.p.y.assign(q.y.begin(), q.y.end() - 1);
        call = [&] { return d.remove_at_end(); };
      } else
        call = [&] { return d.remove(r.i[0], r.j[0]); };
    } else if (o.name == "c_rem2" || o.name == "c_rend2") {
      if (n < 2) return;
      r = req_remove(q, o, 2);
      if (o.name == "c_rend2") {
        r.p.x.assign(q.x.begin(), q.x.end() - 2);
        r.p.y.assign(q.y.begin(), q.y.end() - 2);
        call = [&] { return d.remove2_at_end(); };
      } else
        call = [&] { return d.remove2(r.i[0], r.i[1], r.j[0], r.j[1]); };
    } else {
      if (n < 1) return;
      bool row = o.name != "c_col", col = o.name != "c_row";
      r    = req_change(q, o, row, col);
      call = [&, row, col] { return row && col ? d.change_one_row_and_one_col(r.i[0], r.j[0], r.x[0], r.y[0]) : row ? d.change_row(r.i[0], r.x[0]) : d.change_col(r.j[0], r.y[0]); };
    }
    if (!fine(s, r.p)) return;
    auto a = L(q), b = lin<T>(q.id, r.p.x, r.p.y);
    auto was = q;
    T v{};
    bool done = false;
    finish(s, r.p, [&] {
      v    = call();
      done = true;
    });
    if (done) {
      std::swap(was, m[s]);
      ratio(s, v, a, b, r.p.k);
      std::swap(was, m[s]);
      sim::trace("ratio %.9g", std::real(v));
    }
    check(D01, s, "after a shortcut");
  }
  void op_bad(sim::Op const &o) {
    int s   = (int)o.arg(0);
    auto &d = *dm[s];
    auto &q = m[s];
    long n  = (long)q.x.size();
    long big = n + 1 + (long)(o.arg(2) % 3), neg = -1 - (long)(o.arg(2) % 2);
    bool threw = false;
    long x = 5;
    double y = 6;
    char const *what = "";
    try {
      switch (o.arg(1)) {
        case 0: what = "try_insert beyond the end"; d.try_insert(big, 0, x, y); break;
        case 1: what = "try_insert at a negative index"; d.try_insert(0, neg, x, y); break;
        case 2: what = "try_remove beyond the end"; d.try_remove(0, n); break;
        case 3: what = "try_remove at a negative index"; d.try_remove(neg, 0); break;
        case 4: what = "try_change_col beyond the end"; d.try_change_col(n, y); break;
        case 5: what = "try_change_row beyond the end"; d.try_change_row(n, x); break;
        case 6: what = "try_change_row at a negative index"; d.try_change_row(neg, x); break;
        case 7: what = "try_change_col_row beyond the end"; d.try_change_col_row(0, n, x, y); break;
        case 8: what = "try_insert_k at the same row twice"; d.try_insert_k({0, 0}, {0, 1}, {x, x + 1}, {y, y + 1}); break;
        case 9: what = "try_insert_k beyond the end"; d.try_insert_k({0, 1}, {0, n + 2}, {x, x + 1}, {y, y + 1}); break;
        case 10: what = "try_insert_k at a negative index"; d.try_insert_k({neg, 0}, {0, 1}, {x, x + 1}, {y, y + 1}); break;
        case 11: what = "try_insert_k with lists of different sizes"; d.try_insert_k({0, 1}, {0, 1}, {x}, {y, y + 1}); break;
        case 12: what = "try_remove_k beyond the end"; d.try_remove_k({0, n}, {0, 1}); break;
        case 13: what = "try_remove_k of the same column twice"; d.try_remove_k({0, 1}, {1, 1}); break;
        case 14: what = "try_refill with lists of different sizes"; d.try_refill(std::vector<long>{1, 2}, std::vector<double>{1}); break;
        default: what = "try_insert_k of one row beyond the end"; d.try_insert_k({n + 1}, {0}, {x}, {y}); break;
      }
    } catch (triqs::runtime_error const &) { threw = true; } catch (user_error const &) {
    }
    if (!threw) FAIL(D02, "not-refused", "%s is not refused (%ld rows%s)", what, n, q.p.any ? ", an operation pending" : "");
    sim::probe("request refused");
    check(D02, s, "after a refused request");
    if (q.p.any) return; // it must still be there: completed or rejected later
    if (o.arg(3) % 2) {  // and the object is usable at once
      sim::Op t{0, "ins", {s, o.arg(2), o.arg(3)}};
      op_try(t);
    }
  }

  void op_save() {
    auto &w  = W();
    w.tmp[0] = m[0];
    w.tmp[1] = m[1];
    try {
      {
        h5::file file("det.tmp", 'w');
        h5::group g{file};
        h5_write(g, "d0", *dm[0]);
        h5_write(g, "d1", *dm[1]);
      }
      h5::rename("det.tmp", "det");
      for (int s = 0; s < 2; ++s) {
        w.saved[s]   = w.tmp[s];
        w.saved[s].p = {};
      }
      w.valid = true;
      sim::probe("checkpoint written");
      sim::trace("saved");
    } catch (h5::io_error const &) { sim::probe("checkpoint failed with an I/O error"); }
    check(D02, 0, "after a checkpoint");
    check(D02, 1, "after a checkpoint");
  }
  void op_restore() {
    auto &w = W();
    if (!w.valid) return;
    try {
      h5::file file("det", 'r');
      h5::group g{file};
      for (int s = 0; s < 2; ++s) {
        if (dm[s]->get_function().id != w.saved[s].id || sim::cfg("rinit") % 2 == 0) dm[s].emplace(Fn<T>{w.saved[s].id}, (long)sim::cfg("rinit"));
        h5_read(g, "d" + std::to_string(s), *dm[s]);
      }
    } catch (h5::io_error const &) {
      sim::probe("restore failed with an I/O error");
      fresh();
      return;
    } catch (std::exception const &e) { FAIL(D02, "checkpoint-unreadable", "reading back a complete checkpoint throws: %s", e.what()); }
    for (int s = 0; s < 2; ++s) {
      m[s] = w.saved[s];
      check(D02, s, "after a restart");
    }
    sim::probe("restored from a checkpoint");
    sim::trace("restored");
  }
  void fresh() {
    for (int s = 0; s < 2; ++s) {
      m[s]    = Model{};
      m[s].id = s;
      dm[s].emplace(Fn<T>{s}, (long)sim::cfg("init"));
      dm[s]->set_n_operations_before_check(m[s].nchk = sim::cfg("nchk"));
    }
  }

  void go() {
    auto &P = sim::plan();
    fresh();
    if (sim::incarnation() > 0) {
      sim::probe("restart after a crash");
      op_restore();
    }
    for (int &pc = W().pc; pc < (int)P.ops.size();) {
      auto const &o = P.ops[pc++];
      sim::step(100);
      int s   = (int)o.arg(0) & 1;
      auto &q = m[s];
      sim::trace("%s %d %ld n=%zu%s", o.name.c_str(), s, (long)o.arg(1), q.x.size(), q.p.any ? " pending" : "");
      long n = (long)q.x.size();
      if (!sane(s)) { // it cannot be judged any more
        if (q.p.any) {
          dm[s]->reject_last_try();
          q.p = {};
        }
        dm[s]->clear();
        q.x.clear();
        q.y.clear();
        q.D = q.d = 0;
        n         = 0;
      }
      if (o.name == "complete") op_complete(s);
      else if (o.name == "reject") op_reject(s);
      else if (o.name.substr(0, 2) == "c_") op_cut(o);
      else if (o.name == "bad") op_bad(o);
      else if (o.name == "save") op_save();
      else if (o.name == "restore") op_restore();
      else if (o.name == "srow" || o.name == "scol") {
        if (q.p.any || n == 0) continue; // a pending operation knows where it goes
        long i = o.arg(1) % n, j = o.arg(2) % n;
        if (o.name == "srow") {
          dm[s]->swap_row(i, j);
          std::swap(q.x[i], q.x[j]);
        } else {
          dm[s]->swap_col(i, j);
          std::swap(q.y[i], q.y[j]);
        }
        check(D01, s, "after a swap of rows or columns");
      } else if (o.name == "roll") {
        if (q.p.any) continue;
        using D = DM;
        int r   = dm[s]->roll_matrix(o.arg(1) == 0 ? D::None : o.arg(1) == 1 ? D::Up : o.arg(1) == 2 ? D::Down : o.arg(1) == 3 ? D::Left : D::Right);
        if (n > 0) {
          if (o.arg(1) == 1) std::rotate(q.x.begin(), q.x.begin() + 1, q.x.end());
          if (o.arg(1) == 2) std::rotate(q.x.begin(), q.x.end() - 1, q.x.end());
          if (o.arg(1) == 3) std::rotate(q.y.begin(), q.y.begin() + 1, q.y.end());
          if (o.arg(1) == 4) std::rotate(q.y.begin(), q.y.end() - 1, q.y.end());
        }
        int want = o.arg(1) != 0 && n > 0 && n % 2 == 0 ? -1 : 1;
        if (r != want) FAIL(D01, "roll-sign", "rolling %ld rows or columns returns %d", n, r);
        check(D01, s, "after a roll");
      } else if (o.name == "reserve") {
        if (q.p.any) continue;
        dm[s]->reserve(o.arg(1), o.arg(2));
        check(D01, s, "after reserve()");
      } else if (o.name == "regen") {
        auto b = L(q);
        ld ad  = std::abs(b.det);
        try {
          dm[s]->regenerate();
          if (n > 0) {
            q.cnt = 0;
            exact(q, b);
            sim::probe("regenerated");
          }
        } catch (user_error const &) {
          sim::probe("the function failed in regenerate");
        } catch (std::exception const &e) {
          if (!(q.thr > 0 && ad < q.thr * (1 + 1e-6L)) && b.na * b.ni < 1e11L) FAIL(D01, "regenerate-throws", "regenerate() with determinant %Lg throws: %s", ad, e.what());
          q.d += 1e-9L;
        }
        check(D01, s, "after regenerate()");
      } else if (o.name == "clear") {
        dm[s]->clear();
        q.p = {};
        q.x.clear();
        q.y.clear();
        q.D = q.d = 0;
        check(D01, s, "after clear()");
      } else if (o.name == "construct") {
        Model nm;
        nm.id = q.id;
        sim::Rng g(o.arg(2));
        for (int l = 0; l < o.arg(1); ++l) {
          nm.x.push_back((long)g.below(100000));
          nm.y.push_back((double)g.below(100000));
        }
        auto b = L(nm);
        if (b.singular || b.na * b.ni > 300) continue;
        exact(nm, b);
        try {
          dm[s].emplace(Fn<T>{nm.id}, nm.x, nm.y);
          m[s] = nm;
        } catch (user_error const &) { rebuild(s); }
        check(D01, s, "after construction from lists");
      } else if (o.name == "param") {
        static const double thr[] = {-1, -1, 1e-30, 0.02, 0.3, -1}, pr[] = {1e-9, 1e-8, 1e-5, 1e-3, 1e-2, 1e-6};
        int v = (int)o.arg(2);
        switch (o.arg(1)) {
          case 0: dm[s]->set_singular_threshold(q.thr = thr[v]); break;
          case 1: dm[s]->set_precision_warning(q.warn = pr[v]); break;
          case 2: dm[s]->set_precision_error(q.err = pr[v]); break;
          default: dm[s]->set_n_operations_before_check(q.nchk = v * 2);
        }
        check(D01, s, "after a change of settings");
      } else if (o.name == "copy") {
        switch (o.arg(1)) {
          case 0: { // the copy takes the place of the other object; both go on
            dm[1 - s].emplace(*dm[s]);
            m[1 - s] = m[s];
            break;
          }
          case 1: { // a copy completed on its own
            auto keep = m[s];
            auto orig = std::make_unique<DM>(*dm[s]);
            std::optional<DM> mine(std::move(*dm[s]));
            dm[s].emplace(std::move(*orig));
            op_complete(s);
            m[s] = keep;
            dm[s].emplace(std::move(*mine));
            break;
          }
          case 2: {
            std::optional<DM> t(std::move(*dm[s]));
            dm[s].emplace(std::move(*t));
            break;
          }
          case 3: {
            swap(*dm[0], *dm[1]);
            std::swap(m[0], m[1]);
            break;
          }
          case 4: {
            if (m[0].p.any || m[1].p.any) break;
            DM t(std::move(*dm[s]));
            *dm[s] = std::move(t);
            break;
          }
          default: {
            if (m[0].p.any || m[1].p.any) break;
            DM t(*dm[1 - s]);
            *dm[s] = std::move(t);
            m[s]   = m[1 - s];
          }
        }
        sim::probe(q.p.any ? "copied or moved with an operation pending" : "copied or moved");
        check(D02, 0, "after a copy, move or swap");
        check(D02, 1, "after a copy, move or swap");
      } else
        op_try(o);
    }
    W().pc = 1 << 20;
  }
};

EXPORT void wl_setup() {
  static World *w = nullptr;
  delete w;
  w            = new World;
  sim::world() = w;
}
EXPORT void wl_finish() {}
EXPORT void wl_rank() {
  static std::ostringstream *sink = new std::ostringstream;
  auto *old                       = std::cerr.rdbuf(sink->rdbuf());
  f_calls                         = 0;
  quiet                           = false;
  if (sim::cfg("type") == 0)
    Proc<double>{}.go();
  else
    Proc<dcomplex>{}.go();
  std::cerr.rdbuf(old);
}
