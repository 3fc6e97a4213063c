// Workload "trf": transforms of Green's functions between times, frequencies, Legendre coefficients, lattice sites and momenta,
// densities and analytic continuation, in random histories with failing allocations and refused requests.
// Oracle: sums of poles, which are known exactly in all representations, and sums written out term by term.
#pragma once
#include "sim.hpp"
#include <h5/h5.hpp>
#include <nda/h5.hpp>
#include <nda/mpi.hpp>
using nda::make_regular;
#include <triqs/gfs.hpp>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <new>
#include <optional>

namespace tw {
  using namespace triqs::gfs;
  namespace mesh = triqs::mesh;
  using cd       = std::complex<double>;
  using mesh::Boson;
  using mesh::Fermion;
  inline std::string where;
  inline std::string str(char const *f, ...) {
    char b[700];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
  }
#define FAIL(cls, ...) sim::violation(cls, "%s: %s", tw::where.c_str(), tw::str(__VA_ARGS__).c_str())

  // numbers that a step of the plan needs
  struct Draw {
    sim::Rng r;
    explicit Draw(int64_t code) : r((uint64_t)code) {}
    long i(long a, long b) { return r.range(a, b); }
    double u(double a = 0, double b = 1) { return a + (b - a) * r.uniform(); }
    bool p(double x) { return r.chance(x); }
    cd c() { return {u(-1, 1), u(-1, 1)}; }
    template <typename T> T of(std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }
  };

  inline long vol(std::vector<long> const &v) {
    long n = 1;
    for (long x : v) n *= x;
    return n;
  }
  template <size_t N> std::array<long, N> arr(std::vector<long> const &v) {
    std::array<long, N> r;
    for (size_t i = 0; i < N; ++i) r[i] = v.at(i);
    return r;
  }
  // the elements of a (possibly strided) array in C order
  template <typename A> auto flat(A const &a) {
    using V = std::decay_t<nda::get_value_t<A>>;
    std::vector<V> r;
    r.reserve(a.size());
    for (auto const &x : a) r.push_back(x);
    return r;
  }
  template <typename A> bool same_bits(A const &a, A const &b) {
    return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(a[0])));
  }
  template <typename M> long npts(M const &m) {
    long n = 0;
    for (auto const &x : m) (void)x, ++n;
    return n;
  }

  // ================================================================= a function known everywhere
  struct Poles {
    bool fermi  = true;
    double beta = 1;
    std::vector<long> ts; // target shape
    std::vector<double> e;
    std::vector<std::vector<cd>> a; // [pole][element]
    long n() const { return vol(ts); }
    cd tau(long el, double t) const {
      cd r = 0;
      for (size_t k = 0; k < e.size(); ++k) {
        double x = e[k], y;
        if (fermi)
          y = x >= 0 ? -std::exp(-x * t) / (1 + std::exp(-beta * x)) : -std::exp(x * (beta - t)) / (1 + std::exp(beta * x));
        else
          y = x >= 0 ? -std::exp(-x * t) / (1 - std::exp(-beta * x)) : std::exp(x * (beta - t)) / (1 - std::exp(beta * x));
        r += a[k][el] * y;
      }
      return r;
    }
    cd z(long el, cd w) const {
      cd r = 0;
      for (size_t k = 0; k < e.size(); ++k) r += a[k][el] / (w - e[k]);
      return r;
    }
    cd freq(long n) const { return {0, M_PI * (2 * n + (fermi ? 1 : 0)) / beta}; }
    cd mom(long el, int k) const {
      cd r = 0;
      if (k > 0)
        for (size_t i = 0; i < e.size(); ++i) r += a[i][el] * std::pow(e[i], k - 1);
      return r;
    }
    cd density(long el) const {
      cd r = 0;
      for (size_t k = 0; k < e.size(); ++k) r += a[k][el] / (std::exp(beta * e[k]) + (fermi ? 1 : -1));
      return r;
    }
    // sum over the poles of |a| |e|^q, the largest over the elements
    double size(int q) const {
      double m = 0;
      for (long l = 0; l < n(); ++l) {
        double s = 0;
        for (size_t k = 0; k < e.size(); ++k) s += std::abs(a[k][l]) * std::pow(std::abs(e[k]), q);
        m = std::max(m, s);
      }
      return m;
    }
    double emax() const {
      double m = 0;
      for (double x : e) m = std::max(m, std::abs(x));
      return m;
    }
    // what can be left at frequencies from w on once q moments are taken out
    double rest(int q, double w) const {
      double s = size(q) * std::pow(std::max(1.0, emax() / w), 1);
      for (int k = 0; k < q; ++k) s += 2 * size(k);
      return s / std::pow(w, q + 1);
    }
    static Poles make(Draw &d, std::vector<long> ts, bool herm, bool real, double emax) {
      Poles p;
      p.ts    = std::move(ts);
      p.fermi = d.p(0.6);
      p.beta  = d.p(0.05) ? 2000 : d.of<double>({2, 5, 10, 4.7});
      long np = d.i(1, 3), n = p.n();
      for (long k = 0; k < np; ++k) {
        p.e.push_back((d.p(0.5) ? 1 : -1) * d.u(0.3, emax));
        std::vector<cd> a(n);
        for (auto &x : a) x = real ? cd(d.u(-1, 1)) : d.c();
        if (herm && p.ts.size() == 2 && p.ts[0] == p.ts[1])
          for (long i = 0; i < p.ts[0]; ++i)
            for (long j = 0; j <= i; ++j) a[i * p.ts[0] + j] = i == j ? cd(a[i * p.ts[0] + j].real()) : std::conj(a[j * p.ts[0] + i]);
        p.a.push_back(a);
      }
      return p;
    }
    auto stat() const { return fermi ? Fermion : Boson; }
  };
  template <typename G> constexpr int rank_of = std::decay_t<G>::target_t::rank;
  // element l of the value at data index i, as a number
  template <typename G> void set(G &g, long i, long l, cd x) {
    using S = typename std::decay_t<G>::scalar_t;
    long nl = g.data().size() / std::max<long>(1, g.data().shape()[0]);
    auto &y = *(g.data().data() + i * nl + l); // own objects are contiguous
    if constexpr (std::is_same_v<S, double>)
      y = x.real();
    else
      y = x;
  }
  template <typename G> void fill(G &g, Poles const &p) {
    using M = typename G::mesh_t;
    long i  = 0;
    for (auto const &x : g.mesh()) {
      for (long l = 0; l < p.n(); ++l) {
        if constexpr (std::is_same_v<M, mesh::imfreq>)
          set(g, i, l, p.z(l, p.freq(x.index())));
        else
          set(g, i, l, p.tau(l, double(x)));
      }
      ++i;
    }
  }
  // what an object should hold: exact values at every point, and how far from them it may be
  template <typename G> double deviation(G const &g, Poles const &p, bool weight_freq = false) {
    using M = typename G::mesh_t;
    auto v  = flat(g.data());
    long n  = p.n(), i = 0;
    if ((long)v.size() != n * npts(g.mesh())) FAIL("shape", "the result has %ld numbers for %ld points and %ld elements", (long)v.size(), npts(g.mesh()), n);
    double m = 0;
    for (auto const &x : g.mesh()) {
      for (long l = 0; l < n; ++l) {
        cd e;
        if constexpr (std::is_same_v<M, mesh::imfreq>)
          e = p.z(l, p.freq(x.index()));
        else
          e = p.tau(l, double(x));
        double dev = std::abs(cd(v[i * n + l]) - e);
        if (!(dev <= m)) m = dev; // also NaN
        if (dev != dev) return INFINITY;
      }
      ++i;
    }
    return m;
  }
  // moments of the function, the first k of them (with the zeroth), as an array of a given rank
  template <int R> nda::array<cd, R> moments(Poles const &p, int k) {
    std::vector<long> sh{k};
    sh.insert(sh.end(), p.ts.begin(), p.ts.end());
    nda::array<cd, R> m(arr<R>(sh));
    for (int i = 0; i < k; ++i)
      for (long l = 0; l < p.n(); ++l) m.data()[i * p.n() + l] = p.mom(l, i);
    return m;
  }

  // ================================================================= the processes
  struct Proc {
    virtual ~Proc()                     = default;
    virtual void run(sim::Op const &op) = 0; // may throw bad_alloc if an allocation was made to fail
    virtual void check()                = 0; // everything that should not have changed did not
  };
  // an object and what it held when it was last written to
  template <typename G> struct Slot {
    using V = std::decay_t<nda::get_value_t<typename G::data_t>>;
    G g;
    Poles f;
    double err = 0;     // how far from the function it may be
    bool ok    = false; // holds something known
    std::vector<V> snap;
    std::optional<typename G::mesh_t> m;
    void note() {
      snap = flat(g.data());
      m    = g.mesh();
    }
    void check(char const *what) const {
      if (!ok) return;
      if (!(g.mesh() == *m)) FAIL("changed", "the mesh of %s changed", what);
      if (!same_bits(snap, flat(g.data()))) FAIL("changed", "%s changed", what);
    }
  };
  // the allocation that fails in the next call of the library
  inline std::string arm_kind;
  inline int64_t arm_n = 0;
  template <typename F> void under(F f) {
    struct Off {
      ~Off() {
        nda::stub::alloc_countdown = 0;
        sim::fail_new(0);
        arm_n = 0;
      }
    } off;
    if (arm_n > 0) {
      if (arm_kind == "alloc")
        nda::stub::alloc_countdown = arm_n;
      else
        sim::fail_new(arm_n);
    }
    f();
  }
  // (the exceptions of the library end the program if there is no memory for a copy of their message)
  inline bool refused(std::function<void()> f) {
    if (arm_kind == "new") arm_n = 0;
    try {
      under(f);
    } catch (std::bad_alloc const &) { throw; } catch (std::exception const &e) { return true; }
    return false;
  }
} // namespace tw
