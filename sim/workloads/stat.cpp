// Workload: accumulators and histograms fed by simulated processes, compressed, copied, combined over MPI, checkpointed and
// restarted after crashes and I/O errors.
// Real code: triqs/stat/*. Oracle: the plain list of all data, evaluated from the definitions in extended precision.
#include "sim.hpp"
#include <h5/h5.hpp>
#include <nda/h5.hpp>
#include <nda/mpi.hpp>
using nda::make_regular; // as test and user code has it
#include <triqs/stat.hpp>
#include <triqs/stat/histograms.hpp>
#include <cmath>
#include <optional>
#include <set>

#define EXPORT extern "C" __attribute__((visibility("default")))
enum { ANY = 0, A01 = 1, A02 = 2, A03 = 3, A04 = 4 };
static bool on(int p) {
  int64_t w = sim::cfg("prop");
  return w == 0 || w == p;
}
#define FAIL(p, cls, ...)                                                                                                                            \
  do {                                                                                                                                               \
    if (on(p)) sim::violation(cls, __VA_ARGS__);                                                                                                     \
  } while (0)

using ld   = long double;
using cld  = std::complex<ld>;
using Flat = std::vector<cld>;
using dcomplex = std::complex<double>;
using namespace triqs::stat;

// ================================================================= plan generation
EXPORT void wl_generate(sim::Rng &g, sim::Plan &p) {
  int64_t prop   = p.cfg.count("prop") ? p.cfg["prop"] : 0;
  int64_t ranks  = prop == A02 ? (g.chance(0.15) ? 1 : g.range(2, 4)) : prop == A03 ? g.range(1, 4) : prop == A01 ? 1 : g.range(1, 2);
  p.cfg["ranks"] = ranks;
  p.cfg["type"]  = g.range(0, 3);
  p.cfg["dim"]   = g.range(1, 3);
  p.cfg["kind"]  = g.chance(0.5) ? 0 : g.range(0, 6);
  auto mx        = [&](int hi) -> int64_t { return g.chance(0.25) ? -1 : g.chance(0.1) ? 0 : g.chance(0.2) ? 1 : g.range(2, hi); };
  p.cfg["nlog"]  = mx(9);
  p.cfg["nlin"]  = mx(20);
  p.cfg["cap"]   = g.chance(0.5) ? 1 : g.range(1, 7);
  p.cfg["dread"] = g.chance(0.5); // restored objects are default constructed before
  p.cfg["hbins"] = g.chance(0.1) ? 1 : g.chance(0.5) ? g.range(2, 12) : g.range(2, 300);
  p.cfg["ha"]    = g.range(-40, 20);
  p.cfg["hw"]    = g.chance(0.3) ? 1 : g.range(1, 90);
  p.cfg["hint"]  = g.chance(0.3);
  int n          = (int)g.range(2, 14);
  auto amount    = [&]() -> int64_t { return g.chance(0.4) ? g.range(0, 3) : g.chance(0.5) ? (int64_t)(1 << g.range(0, 7)) + g.range(-1, 1) : g.range(0, 60); };
  for (int i = 0; i < n; ++i) {
    int64_t r = g.range(-1, ranks - 1);
    double u  = g.uniform();
    if (prop == A03) {
      if (u < 0.45) p.ops.push_back({(int)r, "hadd", {g.range(0, 1), amount(), g.range(0, 9)}});
      else if (u < 0.6) p.ops.push_back({-1, "hred", {g.range(0, 1), g.range(0, ranks - 1), g.range(0, 1)}});
      else if (u < 0.7) p.ops.push_back({-1, "hbc", {g.range(0, 1), g.range(0, ranks - 1), g.range(0, 1)}});
      else if (u < 0.8) p.ops.push_back({(int)r, "hplus", {g.range(0, 1)}});
      else if (u < 0.86) p.ops.push_back({(int)r, "hclear", {g.range(0, 1)}});
      else if (u < 0.95) p.ops.push_back({(int)r, "hpdf", {g.range(0, 1)}});
      else p.ops.push_back({(int)r, "hcopy", {g.range(0, 1)}});
      continue;
    }
    if (u < 0.45) p.ops.push_back({(int)r, "add", {g.range(0, 1), amount()}});
    else if (u < 0.55) p.ops.push_back({(int)r, "compress", {g.range(0, 1), g.chance(0.3) ? g.range(-1, 1) : g.chance(0.6) ? g.range(2, 4) : g.range(5, 40)}});
    else if (prop == A02 || (prop == 0 && u < 0.75)) {
      double v = g.uniform();
      if (v < 0.4) p.ops.push_back({-1, "allred", {g.range(0, 1)}});
      else {
        sim::Op o{-1, v < 0.6 ? "mean" : v < 0.72 ? "jacc" : "jack", {g.range(0, 3)}};
        for (int k = 0; k < ranks; ++k) o.a.push_back(1 + (g.chance(0.5) ? g.range(0, 3) : g.range(0, 40)));
        p.ops.push_back(o);
      }
    } else if (prop == A04 || (prop == 0 && u < 0.9)) {
      if (g.chance(0.3)) p.ops.push_back({(int)r, "hadd", {g.range(0, 1), amount(), g.range(0, 9)}});
      else p.ops.push_back({(int)r, g.chance(0.6) ? "save" : "restore", {}});
    } else if (u < 0.62) p.ops.push_back({(int)r, "copy", {g.range(0, 1), g.range(0, 2)}});
    else if (u < 0.64) p.ops.push_back({(int)r, "far", {g.range(5, 45), g.range(1, 3), g.chance(0.5) ? -1 : g.range(2, 50)}});
    else p.ops.push_back({(int)r, "add", {g.range(0, 1), amount()}});
  }
  if (prop == A04 || prop == 0) {
    int nf = (int)g.range(0, 3);
    for (int i = 0; i < nf; ++i) p.faults.push_back({"io", {g.range(0, ranks - 1), g.range(1, 160), g.range(0, 1)}});
  }
}

// ================================================================= model
struct Model {
  int64_t n = 0; // data given
  std::vector<int64_t> chunk;
  int64_t cap = 1;
  bool operator==(Model const &) const = default;
  void init() {
    n   = 0;
    cap = sim::cfg("cap");
    chunk.clear();
    if (sim::cfg("nlin")) chunk.push_back(0);
  }
  void compress(int64_t f) {
    if (f < 2 || chunk.empty()) return;
    std::vector<int64_t> c;
    for (size_t i = 0; i < chunk.size(); ++i)
      if (i % f)
        c.back() += chunk[i];
      else
        c.push_back(chunk[i]);
    chunk = c;
    cap *= f;
  }
  void add() {
    ++n;
    int64_t mx = sim::cfg("nlin");
    if (mx == 0) return;
    if (mx == 1) {
      ++chunk[0];
      return;
    }
    if (mx > 1 && (int64_t)chunk.size() == mx && chunk.back() == cap) compress(2);
    if (chunk.back() == cap)
      chunk.push_back(1);
    else
      ++chunk.back();
  }
};
struct HModel {
  int64_t n = 0, lost = 0;
  std::vector<double> d;
};
struct Side {
  int pc = 0;
  Model m[2];
  HModel h[2];
  int64_t hcount[2] = {0, 0};
};
struct World {
  Side now[4], saved[4], tmp[4];
  bool valid[4] = {};
  std::vector<std::array<Model, 4>> at; // per op: model of each rank when it entered
  std::vector<std::array<HModel, 4>> hat;
};
static World &W() { return *static_cast<World *>(sim::world()); }

static ld unit(uint64_t z) { return ((sim::mix(z) >> 11) + 0.5L) / 9007199254740992.0L; }
static double gauss(uint64_t z) { return (double)(std::sqrt(-2 * std::log(unit(z * 2 + 1))) * std::cos(6.283185307179586L * unit(z * 2 + 2))); }
static double component(int r, int slot, int64_t k, int c) {
  uint64_t z = sim::mix(sim::mix(sim::plan().seed * 16 + r * 4 + slot, k), c);
  double x   = gauss(z);
  switch (sim::cfg("kind")) {
    case 1: return 1e6 + x;
    case 2: return 1.25 + c;
    case 3: return std::floor(3 * x);
    case 4: return x * std::exp(4 * gauss(z ^ 77));
    case 5: return (k & 1 ? -1 : 1) * (1 + 0.01 * x);
    case 6: return k % 17 == 0 ? 50 * x : 0.1 * x;
  }
  return x;
}
template <typename T> struct Make;
template <> struct Make<double> {
  static int size() { return 1; }
  static double get(int r, int s, int64_t k) { return component(r, s, k, 0); }
  static Flat flat(double x) { return {cld(x)}; }
};
template <> struct Make<dcomplex> {
  static dcomplex get(int r, int s, int64_t k) { return {component(r, s, k, 0), component(r, s, k, 1)}; }
  static Flat flat(dcomplex x) { return {cld(x)}; }
};
template <> struct Make<nda::array<double, 1>> {
  static auto get(int r, int s, int64_t k) {
    nda::array<double, 1> a(sim::cfg("dim"));
    for (int i = 0; i < a.shape()[0]; ++i) a(i) = component(r, s, k, i);
    return a;
  }
};
template <> struct Make<nda::array<dcomplex, 2>> {
  static auto get(int r, int s, int64_t k) {
    nda::array<dcomplex, 2> a(2, sim::cfg("dim"));
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < a.shape()[1]; ++j) a(i, j) = dcomplex{component(r, s, k, 4 * i + j), component(r, s, k, 20 + 4 * i + j)};
    return a;
  }
};
template <typename X> Flat flat(X const &x) {
  Flat f;
  if constexpr (nda::Array<X>)
    for (auto const &y : x) f.push_back(cld(y));
  else
    f.push_back(cld(x));
  return f;
}
static double max_abs(std::vector<Flat> const &d) {
  ld m = 0;
  for (auto const &x : d)
    for (auto const &y : x) m = std::max(m, std::abs(y));
  return (double)m;
}
static Flat mean_of(std::vector<Flat> const &d, size_t b, size_t e) {
  Flat m(d[b].size());
  for (size_t i = b; i < e; ++i)
    for (size_t c = 0; c < m.size(); ++c) m[c] += d[i][c];
  for (auto &x : m) x /= (ld)(e - b);
  return m;
}
// sum of |x-mean|^2
static std::vector<ld> spread(std::vector<Flat> const &d) {
  auto m = mean_of(d, 0, d.size());
  std::vector<ld> q(m.size());
  for (auto const &x : d)
    for (size_t c = 0; c < m.size(); ++c) q[c] += std::norm(x[c] - m[c]);
  return q;
}
static bool close(cld x, cld y, ld tol) { return std::abs(x - y) <= tol; } // false for NaN
static const ld EPS = 2.3e-16L;
static std::string show(cld x) {
  char b[80];
  if (x.imag() == 0)
    snprintf(b, sizeof b, "%.10Lg", x.real());
  else
    snprintf(b, sizeof b, "(%.10Lg,%.10Lg)", x.real(), x.imag());
  return b;
}
static int levels(int64_t count) {
  int64_t mx = sim::cfg("nlog");
  if (mx == 0) return 0;
  int l = 1;
  while ((count >> l) > 0) ++l;
  return mx > 0 ? (int)std::min<int64_t>(l, mx) : l;
}
// all complete bins of size 2^n of a rank
template <typename T> std::vector<Flat> all_data(int r, int slot, int64_t n) {
  std::vector<Flat> d;
  for (int64_t k = 0; k < n; ++k) d.push_back(flat(Make<T>::get(r, slot, k)));
  return d;
}
static void add_bins(std::vector<Flat> const &d, int n, std::vector<Flat> &out) {
  for (size_t b = 0; b + ((size_t)1 << n) <= d.size(); b += (size_t)1 << n) out.push_back(mean_of(d, b, b + ((size_t)1 << n)));
}
template <typename E> void check_errors(int p, char const *what, E const &errs, std::vector<long> const &counts, int n, std::vector<Flat> const &bins, double ma) {
  if (counts[n] != (long)bins.size()) FAIL(p, "bin-count", "%s: %ld bins of %ld data reported, there are %zu", what, counts[n], 1L << n, bins.size());
  auto e = flat(errs[n]);
  if (bins.size() <= 1) {
    for (auto x : e)
      if (x != cld(0)) FAIL(p, "error-value", "%s: error %s for level %d with %zu bins", what, show(x).c_str(), n, bins.size());
    return;
  }
  auto q = spread(bins);
  ld K   = bins.size();
  for (size_t c = 0; c < q.size(); ++c) {
    ld Q   = e[c].real() * e[c].real() * K * (K - 1);
    ld tol = 1e-9L * q[c] + 1e4L * EPS * K * ma * std::sqrt(q[c] / K) + K * (1e4L * EPS * ma) * (1e4L * EPS * ma);
    if (!(std::abs(Q - q[c]) <= tol) || e[c].imag() != 0)
      FAIL(p, "error-value", "%s: standard error %s of the bins of %ld data (component %zu), it is %.10Lg", what, show(e[c]).c_str(), 1L << n, c, std::sqrt(q[c] / (K * (K - 1))));
  }
}

// ================================================================= a process
template <typename T> struct Proc {
  mpi::communicator world;
  std::optional<accumulator<T>> acc[2];
  histogram h[2];
  Side &me() { return W().now[sim::rank()]; }

  void fresh() {
    for (int s = 0; s < 2; ++s) {
      acc[s].emplace(Make<T>::get(9, s, 0), (int)sim::cfg("nlog"), (int)sim::cfg("nlin"), (int)sim::cfg("cap"));
      h[s] = make_hist();
      me().m[s].init();
      me().h[s] = {0, 0, std::vector<double>(h[s].size())};
    }
  }
  static double ha() { return sim::cfg("hint") ? sim::cfg("ha") : sim::cfg("ha") / 7.0; }
  static double hb() { return sim::cfg("hint") ? ha() + sim::cfg("hw") : ha() + sim::cfg("hw") / 11.0; }
  static histogram make_hist() {
    if (sim::cfg("hint")) return histogram((int)sim::cfg("ha"), (int)(sim::cfg("ha") + sim::cfg("hw")));
    return histogram(ha(), hb(), sim::cfg("hbins"));
  }

  void check(int p, int s) {
    auto const &a = *acc[s];
    auto const &m = me().m[s];
    if (a.data_input_count() != m.n) FAIL(p, "count", "accumulator has %ld data, it was given %ld", (long)a.data_input_count(), (long)m.n);
    if (a.n_log_bins_max() != sim::cfg("nlog") || a.n_lin_bins_max() != sim::cfg("nlin")) FAIL(p, "parameters", "n_log_bins_max()=%d, n_lin_bins_max()=%d, constructed with %ld, %ld", a.n_log_bins_max(), a.n_lin_bins_max(), (long)sim::cfg("nlog"), (long)sim::cfg("nlin"));
    auto d    = all_data<T>(sim::rank(), s, m.n);
    double ma = d.empty() ? 1 : max_abs(d);
    // linear bins
    auto const &lb = a.linear_bins();
    if (a.n_lin_bins() != (int)m.chunk.size() || lb.size() != m.chunk.size()) FAIL(p, "linear-bins", "%d (%zu) linear bins, expected %zu", a.n_lin_bins(), lb.size(), m.chunk.size());
    if (sim::cfg("nlin") && a.lin_bin_capacity() != m.cap) FAIL(p, "capacity", "capacity of the linear bins is %d, expected %ld", a.lin_bin_capacity(), (long)m.cap);
    size_t b = 0;
    for (size_t i = 0; i < m.chunk.size(); ++i) {
      auto f = flat(lb[i]);
      Flat ref(f.size());
      if (m.chunk[i]) ref = mean_of(d, b, b + m.chunk[i]);
      if (m.n && ref.size() != d[0].size()) FAIL(p, "linear-bins", "linear bin %zu has %zu components", i, f.size());
      for (size_t c = 0; c < f.size(); ++c)
        if (!close(f[c], ref[c], 1e-10L * ma))
          FAIL(p, "linear-bin-value", "linear bin %zu of %zu holds %s, the mean of data [%zu,%zu) is %s", i, m.chunk.size(), show(f[c]).c_str(), b, b + m.chunk[i], show(ref[c]).c_str());
      b += m.chunk[i];
    }
    // logarithmic bins
    int L = levels(m.n);
    if (a.n_log_bins() != L) FAIL(p, "log-bins", "%d logarithmic bins after %ld data, expected %d", a.n_log_bins(), (long)m.n, L);
    auto [e, c] = a.log_bin_errors();
    if ((int)e.size() != L || (int)c.size() != L) FAIL(p, "log-bins", "errors for %zu levels (%zu counts), expected %d", e.size(), c.size(), L);
    for (int n = 0; n < L; ++n) {
      std::vector<Flat> bins;
      add_bins(d, n, bins);
      check_errors(p, "log_bin_errors", e, c, n, bins, ma);
    }
    sim::state(sim::mix(sim::mix(L, m.chunk.size()), m.cap * 64 + std::min<int64_t>(m.n, 63)));
  }

  void check_hist(int p, histogram const &x, HModel const &m, char const *what) {
    if ((int64_t)x.n_data_pts() != m.n || (int64_t)x.n_lost_pts() != m.lost)
      FAIL(p, "histogram-counts", "%s: %lld samples and %lld lost, expected %ld and %ld", what, (long long)x.n_data_pts(), (long long)x.n_lost_pts(), (long)m.n, (long)m.lost);
    if (x.size() != m.d.size()) FAIL(p, "histogram-size", "%s: %zu bins, expected %zu", what, x.size(), m.d.size());
    if (x.limits() != make_hist().limits()) FAIL(p, "histogram-limits", "%s: limits differ", what);
    for (size_t i = 0; i < m.d.size(); ++i)
      if (x.data()(i) != m.d[i]) FAIL(p, "histogram-data", "%s: bin %zu holds %g, expected %g", what, i, x.data()(i), m.d[i]);
    for (size_t i = 0; i < m.d.size(); ++i) {
      ld ref = m.d.size() == 1 ? (ld)ha() : (ld)ha() + i * ((ld)hb() - ha()) / (m.d.size() - 1);
      if (m.d.size() > 1 && !(std::abs(x.mesh_point(i) - ref) < 1e-12L * (std::abs(ref) + hb() - ha() + std::abs(ha())))) FAIL(p, "histogram-mesh", "%s: mesh point %zu is %g, expected %Lg", what, i, x.mesh_point(i), ref);
    }
  }

  void op_hadd(sim::Op const &o) {
    int s   = (int)o.arg(0);
    auto &m = me().h[s];
    double a = ha(), b = hb();
    for (int64_t k = 0; k < o.arg(1); ++k) {
      uint64_t z = sim::mix(sim::plan().seed * 8 + sim::rank() * 2 + s, me().hcount[s]++);
      double x   = a + (b - a) * (double)unit(z);
      switch (o.arg(2) == 9 ? sim::mix(z) % 9 : (uint64_t)o.arg(2)) {
        case 1: x = a; break;
        case 2: x = b; break;
        case 3: x = std::nextafter(z & 1 ? a : b, z & 2 ? 1e300 : -1e300); break;
        case 4: x = z & 1 ? std::nan("") : z & 2 ? INFINITY : -INFINITY; break;
        case 5: x = a - 2 + (b - a + 4) * (double)unit(z); break;
        case 6: x = a + (b - a) * ((double)(z % 64) + 0.5) / std::max<double>(1, (double)m.d.size() - 1); break; // edges of bins
        case 7: x = (z & 1 ? 1e18 : -1e18) * (double)unit(z); break;
        case 8: x = a + (b - a) * 0.01 * (double)unit(z); break;
      }
      auto n0 = h[s].n_data_pts(), l0 = h[s].n_lost_pts();
      nda::vector<double> d0 = h[s].data();
      h[s] << x;
      bool in = x >= a && x <= b;
      if (std::isnan(x)) sim::probe("NaN sampled");
      if (!in) {
        if (h[s].n_data_pts() != n0 || h[s].n_lost_pts() != l0 + 1) FAIL(A03, "sample-not-lost", "sample %.17g outside of [%g,%g]: %lld samples and %lld lost", x, a, b, (long long)(h[s].n_data_pts() - n0), (long long)(h[s].n_lost_pts() - l0));
        for (long i = 0; i < d0.size(); ++i)
          if (d0(i) != h[s].data()(i)) FAIL(A03, "sample-not-lost", "sample %.17g outside of [%g,%g] is counted in bin %ld", x, a, b, i);
        ++m.lost;
        continue;
      }
      if (h[s].n_data_pts() != n0 + 1 || h[s].n_lost_pts() != l0) FAIL(A03, "sample-not-counted", "sample %.17g in [%g,%g] is not counted once", x, a, b);
      long bin = -1;
      double tot = 0;
      for (long i = 0; i < d0.size(); ++i) {
        double dd = h[s].data()(i) - d0(i);
        tot += std::abs(dd);
        if (dd == 1) bin = i;
      }
      if (tot != 1 || bin < 0) FAIL(A03, "sample-not-counted", "sample %.17g in [%g,%g] changes the bins by %g in total", x, a, b, tot);
      ld pos = m.d.size() == 1 ? 0 : ((ld)x - a) * (m.d.size() - 1) / ((ld)b - a);
      if (!(std::abs(pos - bin) <= 0.5L + 1e-9L * (1 + std::abs(pos)))) FAIL(A03, "wrong-bin", "sample %.17g is counted in bin %ld, its position is %.12Lg", x, bin, pos);
      ++m.n;
      ++m.d[bin];
    }
    check_hist(A03, h[s], m, "after sampling");
    if (!o.arg(1)) return;
    sim::probe("samples binned", o.arg(1));
  }

  void op_allred(sim::Op const &o, int pc) {
    int s                    = (int)o.arg(0);
    W().at[pc][sim::rank()] = me().m[s];
    auto [e, c]              = acc[s]->log_bin_errors_all_reduce(world);
    int L                    = 0;
    double ma                = 1e-300;
    std::vector<std::vector<Flat>> d;
    std::set<int64_t> counts;
    for (int r = 0; r < world.size(); ++r) {
      L = std::max(L, levels(W().at[pc][r].n));
      d.push_back(all_data<T>(r, s, W().at[pc][r].n));
      ma = std::max(ma, max_abs(d.back()));
      counts.insert(levels(W().at[pc][r].n));
    }
    if (counts.size() > 1) sim::probe("ranks with different numbers of levels");
    if ((int)e.size() != L || (int)c.size() != L) FAIL(A02, "log-bins", "log_bin_errors_all_reduce on rank %d: %zu levels (%zu counts), expected %d", sim::rank(), e.size(), c.size(), L);
    for (int n = 0; n < L; ++n) {
      std::vector<Flat> bins;
      for (auto const &x : d) add_bins(x, n, bins);
      check_errors(A02, "log_bin_errors_all_reduce", e, c, n, bins, ma);
    }
    sim::probe("errors reduced over the ranks");
    check(A02, s);
  }

  std::vector<T> series(int r, int s, int64_t n, int64_t off) {
    std::vector<T> v;
    for (int64_t k = 0; k < n; ++k) {
      auto x = Make<T>::get(r, s, off + k);
      if (s == 1) { // a denominator
        if constexpr (nda::Array<T>)
          for (auto &y : x) y = (y - 1e6 * (sim::cfg("kind") == 1)) * 0.05 + 3.;
        else
          x = (x - 1e6 * (sim::cfg("kind") == 1)) * 0.05 + 3.;
      }
      v.push_back(x);
    }
    return v;
  }
  void op_mean(sim::Op const &o, int pc) {
    int r      = sim::rank();
    auto mine  = series(r, 0, o.arg(1 + r), 1000 * pc);
    std::vector<Flat> d, own;
    for (int k = 0; k < world.size(); ++k)
      for (auto const &x : series(k, 0, o.arg(1 + k), 1000 * pc)) d.push_back(flat(x));
    for (auto const &x : mine) own.push_back(flat(x));
    double ma = max_abs(d);
    auto cmp  = [&](char const *what, Flat const &got, std::vector<Flat> const &dd) {
      auto ref = mean_of(dd, 0, dd.size());
      if (got.size() != ref.size()) FAIL(A02, "mean", "%s has %zu components", what, got.size());
      for (size_t c = 0; c < ref.size(); ++c)
        if (!close(got[c], ref[c], 1e-11L * ma)) FAIL(A02, "mean", "%s on rank %d of %d is %s, the mean is %s", what, r, world.size(), show(got[c]).c_str(), show(ref[c]).c_str());
    };
    cmp("mean", flat(mean(mine)), own);
    cmp("mean_mpi", flat(mean_mpi(world, mine)), d);
    if constexpr (!nda::Array<T>) {
      auto err = [&](char const *what, auto const &me_, std::vector<Flat> const &dd) {
        cmp(what, flat(me_.first), dd);
        ld K = dd.size(), q = spread(dd)[0], e = me_.second, Q = e * e * K * (K - 1);
        ld tol = 1e-9L * q + 1e4L * EPS * K * ma * std::sqrt(q / K) + K * (1e4L * EPS * ma) * (1e4L * EPS * ma);
        if (!(std::abs(Q - q) <= tol)) FAIL(A02, "mean-error", "%s on rank %d of %d: error %.10Lg, expected %.10Lg", what, r, world.size(), e, std::sqrt(q / (K * (K - 1))));
      };
      if (own.size() > 1) err("mean_and_err", mean_and_err(mine), own);
      if (d.size() > 1) err("mean_and_err_mpi", mean_and_err_mpi(world, mine), d);
    }
    sim::probe("means over the ranks");
  }

  // reference jackknife; f works on flattened data
  template <typename F> void ref_jack(char const *what, std::array<Flat, 4> const &got, std::vector<std::vector<Flat>> const &a, F f) {
    size_t N = a[0].size(), nc = a[0][0].size();
    auto avg = [&](std::vector<Flat> const &x, long skip) {
      Flat s(nc);
      for (size_t i = 0; i < N; ++i)
        if ((long)i != skip)
          for (size_t c = 0; c < nc; ++c) s[c] += x[i][c];
      for (auto &y : s) y /= (ld)(N - (skip >= 0));
      return s;
    };
    for (size_t c = 0; c < nc; ++c) {
      std::vector<cld> fs;
      ld scale = 1e-300L;
      for (size_t i = 0; i < N; ++i) {
        std::vector<cld> x;
        for (auto const &y : a) x.push_back(avg(y, (long)i)[c]);
        fs.push_back(f(x));
        scale = std::max(scale, std::abs(fs.back()));
      }
      std::vector<cld> x0;
      for (auto const &y : a) x0.push_back(avg(y, -1)[c]);
      cld fd = f(x0), fj = 0;
      scale  = std::max(scale, std::abs(fd));
      // rounding of the averages
      for (auto const &y : a)
        for (auto const &z : y) scale = std::max(scale, std::abs(z[c]) * (f.square ? std::abs(x0[0]) : 1));
      for (auto const &z : fs) fj += z / (ld)N;
      ld q = 0;
      for (auto const &z : fs) q += std::norm(z - fj);
      ld err = std::sqrt((ld)(N - 1) / N * q);
      cld fs_ = (ld)N * fd - (ld)(N - 1) * fj;
      ld tol  = 1e-11L * scale;
      auto bad = [&](char const *n, cld g, cld e) { FAIL(A02, "jackknife", "%s of %zu data on %d ranks, component %zu: %s is %s, expected %s", what, N, world.size(), c, n, show(g).c_str(), show(e).c_str()); };
      if (!close(got[3][c], fd, tol)) bad("f of the averages", got[3][c], fd);
      if (!close(got[2][c], fj, tol)) bad("the jackknife average", got[2][c], fj);
      if (!close(got[0][c], fs_, tol * (ld)N + 1e-9L * std::abs(fs_))) bad("the bias-corrected average", got[0][c], fs_);
      if (!close(got[1][c], err, 1e-9L * err + 1e2L * tol * std::sqrt((ld)N))) bad("the error", got[1][c], err);
    }
  }
  struct Fsq {
    bool square = true;
    cld operator()(std::vector<cld> const &x) const { return x[0] * x[0]; }
  };
  struct Fratio {
    bool square = false;
    cld operator()(std::vector<cld> const &x) const { return x[0] / x[1]; }
  };
  template <typename R> static std::array<Flat, 4> flat4(R const &r) { return {flat(std::get<0>(r)), flat(std::get<1>(r)), flat(std::get<2>(r)), flat(std::get<3>(r))}; }
  void op_jack(sim::Op const &o, int pc, bool from_acc) {
    int r = sim::rank();
    std::vector<T> a, b;
    std::vector<std::vector<Flat>> all(2), own(2);
    std::optional<accumulator<T>> A, B;
    for (int k = 0; k < world.size(); ++k) {
      auto x = series(k, 0, o.arg(1 + k), 1000 * pc), y = series(k, 1, o.arg(1 + k), 1000 * pc);
      if (from_acc) { // bins of 2 data, the last one possibly incomplete
        A.emplace(x[0], 0, -1, 2);
        B.emplace(y[0], 0, -1, 2);
        for (auto const &z : x) *A << z;
        for (auto const &z : y) *B << z;
        x = A->linear_bins();
        y = B->linear_bins();
      }
      for (auto const &z : x) all[0].push_back(flat(z));
      for (auto const &z : y) all[1].push_back(flat(z));
      if (k == r) {
        a = x;
        b = y;
      }
    }
    for (auto const &z : a) own[0].push_back(flat(z));
    for (auto const &z : b) own[1].push_back(flat(z));
    auto sq    = [](auto const &x) { return x * x; };
    auto ratio = [](auto const &x, auto const &y) { return x / y; };
    if (from_acc) {
      A.emplace(a[0], 0, -1, 1);
      B.emplace(a[0], 0, -1, 1);
      for (auto const &z : a) *A << z;
      for (auto const &z : b) *B << z;
    }
    bool q = o.arg(0) & 1;
    if (own[0].size() > 1) {
      if (q)
        ref_jack("jackknife", from_acc ? flat4(jackknife(sq, *A)) : flat4(jackknife(sq, a)), own, Fsq{});
      else
        ref_jack("jackknife", from_acc ? flat4(jackknife(ratio, *A, *B)) : flat4(jackknife(ratio, a, b)), own, Fratio{});
    }
    if (all[0].size() > 1) {
      auto res = q ? (from_acc ? flat4(jackknife_mpi(world, sq, *A)) : flat4(jackknife_mpi(world, sq, a))) :
                     (from_acc ? flat4(jackknife_mpi(world, ratio, *A, *B)) : flat4(jackknife_mpi(world, ratio, a, b)));
      if (r == 0) { // the result is reduced to node 0
        if (q)
          ref_jack("jackknife_mpi", res, all, Fsq{});
        else
          ref_jack("jackknife_mpi", res, all, Fratio{});
      }
    }
    sim::probe("jackknife");
  }

  void op_far(sim::Op const &o) { // an accumulator which has been fed for very long
    int64_t N = (1LL << o.arg(0)) - o.arg(1), mx = o.arg(2);
    double c = 1.5;
    accumulator<double> a(0., (int)mx, 0, 1);
    h5::file f;
    auto f0 = h5::oracle_access;
    h5::oracle_access = true;
    h5_write(h5::group{f}, "a", a); // for the layout
    auto gr = h5::group{f}.open_group("a");
    auto gl = gr.open_group("log_bins");
    if (!gl.has_key("Qk") || !gl.has_key("Mk") || !gl.has_key("acc") || !gl.has_key("acc_count") || !gl.has_key("count")) {
      h5::oracle_access = f0;
      return;
    }
    int L = 1;
    while ((N >> L) > 0) ++L;
    if (mx > 0) L = std::min<int64_t>(L, mx);
    int na = mx > 0 ? std::min<int64_t>(L, mx - 1) : L;
    std::vector<double> Q(L, 0.), M(L, c), ac(na);
    std::vector<int> cnt(na);
    for (int n = 0; n < na; ++n) {
      cnt[n] = (N >> n) & 1;
      ac[n]  = cnt[n] ? c * std::ldexp(1., n) : 0;
    }
    h5_write(gl, "Qk", Q);
    h5_write(gl, "Mk", M);
    h5_write(gl, "acc", ac);
    h5_write(gl, "acc_count", cnt);
    h5_write(gl, "count", N);
    h5_write(gr, "count", N);
    h5_read(h5::group{f}, "a", a);
    h5::oracle_access = f0;
    for (int64_t k = 0; k < o.arg(1) + 2; ++k) {
      a << c;
      ++N;
      int l = 1;
      while ((N >> l) > 0) ++l;
      if (mx > 0) l = std::min<int64_t>(l, mx);
      auto [e, n] = a.log_bin_errors();
      if (a.n_log_bins() != l || (int)e.size() != l) FAIL(A01, "log-bins", "%d logarithmic bins after %lld data, expected %d", a.n_log_bins(), (long long)N, l);
      for (int i = 0; i < l; ++i)
        if (n[i] != (N >> i) || e[i] != 0) FAIL(A01, "log-bins", "after %lld equal data, level %d has %ld bins and error %g", (long long)N, i, n[i], e[i]);
    }
    sim::probe("accumulator with very many data");
  }

  void op_save() {
    auto &w       = W();
    int r         = sim::rank();
    std::string f = "stat" + std::to_string(r);
    w.tmp[r]      = me();
    try {
      {
        h5::file file(f + ".tmp", 'w');
        h5::group g{file};
        for (int s = 0; s < 2; ++s) {
          h5_write(g, "acc" + std::to_string(s), *acc[s]);
          h5_write(g, "hist" + std::to_string(s), h[s]);
        }
      }
      h5::rename(f + ".tmp", f);
      w.saved[r] = w.tmp[r];
      w.valid[r] = true;
      sim::probe("checkpoint written");
      sim::trace("saved");
    } catch (h5::io_error const &) { sim::probe("checkpoint failed with an I/O error"); }
  }
  void op_restore() {
    auto &w = W();
    int r   = sim::rank();
    if (!w.valid[r]) return;
    auto pc = me().pc;
    for (int s = 0; s < 2; ++s) {
      if (sim::cfg("dread")) {
        acc[s].emplace();
        h[s] = histogram{};
      } else {
        acc[s].emplace(Make<T>::get(9, s, 0), (int)sim::cfg("nlog"), (int)sim::cfg("nlin"), (int)sim::cfg("cap"));
        h[s] = make_hist();
      }
    }
    try {
      h5::file file("stat" + std::to_string(r), 'r');
      h5::group g{file};
      for (int s = 0; s < 2; ++s) {
        h5_read(g, "acc" + std::to_string(s), *acc[s]);
        h5_read(g, "hist" + std::to_string(s), h[s]);
      }
    } catch (h5::io_error const &) {
      sim::probe("restore failed with an I/O error");
      fresh();
      return;
    } catch (std::exception const &e) { FAIL(A04, "checkpoint-unreadable", "reading back a complete checkpoint throws: %s", e.what()); }
    me()    = w.saved[r];
    me().pc = pc;
    sim::probe("restored from a checkpoint");
    sim::trace("restored");
    for (int s = 0; s < 2; ++s) {
      check(A04, s);
      check_hist(A04, h[s], me().h[s], "after a restart");
    }
  }

  void go() {
    auto &P = sim::plan();
    int r   = sim::rank();
    int p   = (int)sim::cfg("prop");
    if (p == 0) p = A01;
    fresh();
    if (sim::incarnation() > 0) {
      sim::probe("restart after a crash");
      op_restore();
    }
    for (int &pc = me().pc; pc < (int)P.ops.size();) {
      int k         = pc++;
      auto const &o = P.ops[k];
      if (o.rank != -1 && o.rank != r) continue;
      sim::step(100);
      sim::trace("%s %ld %ld n=%ld/%ld", o.name.c_str(), (long)o.arg(0), (long)o.arg(1), (long)me().m[0].n, (long)me().m[1].n);
      int s = (int)o.arg(0) & 1;
      if (o.name == "add") {
        for (int64_t i = 0; i < o.arg(1); ++i) {
          *acc[s] << Make<T>::get(r, s, me().m[s].n);
          me().m[s].add();
        }
        check(p == A03 ? A01 : p, s);
      } else if (o.name == "compress") {
        acc[s]->compress_linear_bins((int)o.arg(1));
        me().m[s].compress(o.arg(1));
        check(p == A03 ? A01 : p, s);
        sim::probe("compressed by hand");
      } else if (o.name == "copy") {
        if (o.arg(1) == 0) {
          auto b = *acc[s];
          for (int i = 0; i < 5; ++i) b << Make<T>::get(r, s, i); // the copy is independent
          check(A01, s);
        } else if (o.arg(1) == 1) {
          acc[s].emplace(accumulator<T>(*acc[s]));
          check(A01, s);
        } else {
          auto b = std::move(*acc[s]);
          acc[s] = std::move(b);
          check(A01, s);
        }
      } else if (o.name == "far")
        op_far(o);
      else if (o.name == "allred")
        op_allred(o, k);
      else if (o.name == "mean")
        op_mean(o, k);
      else if (o.name == "jack" || o.name == "jacc")
        op_jack(o, k, o.name == "jacc");
      else if (o.name == "hadd")
        op_hadd(o);
      else if (o.name == "hclear") {
        h[s].clear();
        me().h[s].n = me().h[s].lost = 0;
        std::fill(me().h[s].d.begin(), me().h[s].d.end(), 0.);
        check_hist(A03, h[s], me().h[s], "after clear");
      } else if (o.name == "hcopy") {
        auto x = h[s];
        if (!(x == h[s]) || x != h[s]) FAIL(A03, "histogram-copy", "a copy is not equal");
        x << ha();
        if (x == h[s] || !(x != h[s])) FAIL(A03, "histogram-copy", "a copy with one more sample is equal");
        check_hist(A03, h[s], me().h[s], "after a copy");
      } else if (o.name == "hplus") {
        auto &a = me().h[s], &b = me().h[1 - s];
        auto sum = h[s] + h[1 - s];
        check_hist(A03, h[1 - s], b, "the second operand of a sum");
        check_hist(A03, h[s], a, "the first operand of a sum");
        a.n += b.n;
        a.lost += b.lost;
        for (size_t i = 0; i < a.d.size(); ++i) a.d[i] += b.d[i];
        h[s] = sum;
        check_hist(A03, h[s], a, "a sum");
        bool threw = false;
        try {
          auto bad = h[s] + histogram(ha(), hb() + 1, (long)h[s].size());
        } catch (triqs::runtime_error const &) { threw = true; }
        if (!threw) FAIL(A03, "histogram-sum", "histograms over different ranges are added up");
      } else if (o.name == "hpdf") {
        auto const &m = me().h[s];
        if (!m.n) continue;
        auto f = pdf(h[s]), c = cdf(h[s]);
        ld run = 0;
        for (size_t i = 0; i < m.d.size(); ++i) {
          run += m.d[i];
          if (!(std::abs(f.data()(i) - m.d[i] / (ld)m.n) < 1e-12L)) FAIL(A03, "pdf", "pdf in bin %zu is %g, expected %Lg", i, f.data()(i), m.d[i] / (ld)m.n);
          if (!(std::abs(c.data()(i) - run / (ld)m.n) < 1e-12L)) FAIL(A03, "cdf", "cdf in bin %zu is %g, expected %Lg", i, c.data()(i), run / (ld)m.n);
        }
        check_hist(A03, h[s], m, "after pdf and cdf");
      } else if (o.name == "hred") {
        W().hat[k][r] = me().h[s];
        int root      = (int)o.arg(1);
        bool all      = o.arg(2);
        histogram x   = mpi::reduce(h[s], world, root, all);
        if (all || r == root) {
          HModel m{0, 0, std::vector<double>(h[s].size())};
          for (int q = 0; q < world.size(); ++q) {
            auto const &y = W().hat[k][q];
            m.n += y.n;
            m.lost += y.lost;
            for (size_t i = 0; i < m.d.size(); ++i) m.d[i] += y.d[i];
          }
          check_hist(A03, x, m, "a reduced histogram");
          x << ha(); // it can go on
          ++m.n;
          ++m.d[0];
          check_hist(A03, x, m, "a reduced histogram");
        }
        check_hist(A03, h[s], me().h[s], "the operand of a reduction");
        sim::probe("histograms reduced");
      } else if (o.name == "hbc") {
        int root      = (int)o.arg(1);
        W().hat[k][r] = me().h[s];
        histogram x   = r == root ? h[s] : o.arg(2) ? histogram{} : histogram(-1000., 1000., 3);
        mpi::broadcast(x, world, root);
        auto m = W().hat[k][root];
        check_hist(A03, x, m, "a broadcast histogram");
        x << hb();
        ++m.n;
        ++m.d.back();
        check_hist(A03, x, m, "a broadcast histogram");
        sim::probe("histograms broadcast");
      } else if (o.name == "save")
        op_save();
      else if (o.name == "restore")
        op_restore();
    }
    me().pc = 1 << 20;
  }
};

EXPORT void wl_setup() {
  static World *w = nullptr;
  delete w;
  w = new World;
  w->at.resize(sim::plan().ops.size());
  w->hat.resize(sim::plan().ops.size());
  sim::world() = w;
}
EXPORT void wl_finish() {}
EXPORT void wl_rank() {
  switch (sim::cfg("type")) {
    case 0: Proc<double>{}.go(); break;
    case 1: Proc<dcomplex>{}.go(); break;
    case 2: Proc<nda::array<double, 1>>{}.go(); break;
    default: Proc<nda::array<dcomplex, 2>>{}.go();
  }
}
