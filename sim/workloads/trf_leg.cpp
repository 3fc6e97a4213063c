// Legendre coefficients, densities, rebinning, analytic continuation
#include "trf_common.hpp"
#include <triqs/utility/legendre.hpp>
#include <triqs/gfs/transform/pade.hpp>
#include <gmpxx.h>
namespace tw {
  struct Leg : Proc {
    using L = gf<legendre>;
    Slot<L> l[2];
    static double P(long n, double x) { return std::legendre((unsigned)n, x); }
    // the coefficient of a function of the Matsubara frequency n
    static cd T(long n, long k) {
      double x = M_PI * std::abs(2 * n + 1) / 2, j = std::sph_bessel((unsigned)k, x);
      if (n < 0 && k % 2) j = -j;
      return std::pow(-1.0, (double)std::abs(n)) * std::pow(cd(0, 1), k + 1) * std::sqrt(2.0 * k + 1) * j;
    }
    static L random(Draw &d) {
      long n = d.i(1, 3);
      L g{{d.of<double>({1, 5, 10}), Fermion, d.i(1, 12)}, {n, d.p(0.7) ? n : d.i(1, 3)}};
      for (long i = 0; i < g.data().size(); ++i) g.data().data()[i] = d.c();
      return g;
    }
    void make(int i, Draw &d) {
      auto g = random(d);
      l[i].g = std::move(g), l[i].ok = true;
      l[i].note();
    }
    void check() override {
      l[0].check("the coefficients");
      l[1].check("the coefficients");
    }
    template <typename X> static void cmp(X const &g, std::vector<cd> const &e, double tol) {
      auto v = flat(g.data());
      if (v.size() != e.size()) FAIL("shape", "the result has %ld numbers, expected %ld", (long)v.size(), (long)e.size());
      for (size_t i = 0; i < v.size(); ++i)
        if (!(std::abs(v[i] - e[i]) <= tol)) FAIL("value", "element %ld is %.12g%+.12gi, expected %.12g%+.12gi", (long)i, v[i].real(), v[i].imag(), e[i].real(), e[i].imag());
    }
    // functions of time or frequency from coefficients
    void direct(int i, Draw &d, int form) {
      if (!l[i].ok) make(i, d);
      auto &s   = l[i];
      long ne   = s.g.target_shape()[0] * s.g.target_shape()[1], nl = npts(s.g.mesh());
      double b  = s.g.mesh().beta();
      std::vector<cd> e;
      auto add = [&](auto coef) {
        for (long x = 0; x < ne; ++x) {
          cd r = 0;
          for (long k = 0; k < nl; ++k) r += coef(k) * s.snap[k * ne + x];
          e.push_back(r);
        }
      };
      if (form % 2) {
        gf<imtime> g{{b, Fermion, d.i(2, 20)}, s.g.target_shape()};
        g.data() = cd(3, 3);
        if (form / 2 % 2)
          under([&] { g() = legendre_to_imtime(s.g); });
        else
          under([&] { legendre_matsubara_direct(g, s.g()); });
        for (auto const &t : g.mesh()) add([&](long k) { return std::sqrt(2.0 * k + 1) / b * P(k, 2 * double(t) / b - 1); });
        cmp(g, e, 1e-10);
      } else {
        gf<imfreq> g{{b, Fermion, d.i(1, 20), d.p(0.3) ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies}, s.g.target_shape()};
        g.data() = cd(3, 3);
        if (form / 2 % 2)
          under([&] { g() = legendre_to_imfreq(s.g()); });
        else
          under([&] { legendre_matsubara_direct(g(), s.g); });
        for (auto const &w : g.mesh()) add([&](long k) { return T(w.index(), k); });
        cmp(g, e, 1e-9);
      }
      sim::probe("transformed");
    }
    void inverse(int i, Draw &d, int form) {
      auto g0 = random(d);
      l[i].g = std::move(g0), l[i].ok = false; // unless the transform is completed
      auto sh  = l[i].g.target_shape();
      double b = l[i].g.mesh().beta();
      long nl = npts(l[i].g.mesh()), ne = sh[0] * sh[1];
      std::vector<cd> e(nl * ne);
      bool heavy = form == 0 && ne <= 2;
      if (!heavy) { // from times: trapezoidal integral
        long n = d.i(2, 40);
        gf<imtime> g{{b, Fermion, n}, sh};
        for (long q = 0; q < g.data().size(); ++q) g.data().data()[q] = d.c();
        auto before = flat(g.data());
        switch (form % 3) {
          case 0: under([&] { l[i].g() = imtime_to_legendre(g); }); break;
          case 1: under([&] { legendre_matsubara_inverse(l[i].g, g); }); break;
          case 2: under([&] { legendre_matsubara_inverse(l[i].g(), g()); }); break;
        }
        double dt = b / (n - 1);
        for (long k = 0; k < nl; ++k)
          for (long t = 0; t < n; ++t)
            for (long x = 0; x < ne; ++x) e[k * ne + x] += dt * (t == 0 || t == n - 1 ? 0.5 : 1.0) * std::sqrt(2.0 * k + 1) * P(k, 2.0 * t / (n - 1) - 1) * before[t * ne + x];
        cmp(l[i].g, e, 1e-9 * b);
        if (!same_bits(before, flat(g.data()))) FAIL("changed", "the operand changed");
      } else { // from frequencies: of a known function
        auto p  = Poles::make(d, {sh[0], sh[1]}, false, false, 1.0);
        p.fermi = true, p.beta = b;
        gf<imfreq> g{{b, Fermion, 200}, sh};
        fill(g, p);
        auto before = flat(g.data());
        under([&] { l[i].g() = imfreq_to_legendre(g); });
        if (!same_bits(before, flat(g.data()))) FAIL("changed", "the operand changed");
        // Simpson's rule
        int N = 2000;
        for (long k = 0; k < nl; ++k)
          for (int t = 0; t <= N; ++t)
            for (long x = 0; x < ne; ++x)
              e[k * ne + x] += b / N / 3 * (t == 0 || t == N ? 1 : t % 2 ? 4 : 2) * std::sqrt(2.0 * k + 1) * P(k, 2.0 * t / N - 1) * p.tau(x, b * t / N);
        cmp(l[i].g, e, 1e-3 * (1 + p.size(0)));
        sim::probe("from-frequencies");
      }
      l[i].note(), l[i].ok = true;
      sim::probe("transformed");
    }
    void dens(int i, Draw &d, int form) {
      if (!l[i].ok) make(i, d);
      auto sh  = l[i].g.target_shape();
      long nl = npts(l[i].g.mesh()), ne = sh[0] * sh[1];
      double b = l[i].g.mesh().beta();
      auto want = [&](long r, long c) {
        cd x = 0;
        for (long k = 0; k < nl; ++k) x -= std::sqrt(2.0 * k + 1) / b * l[i].snap[k * ne + r * sh[1] + c];
        return x;
      };
      if (form % 2 && ne == 1) {
        gf<legendre, scalar_valued> g{l[i].g.mesh()};
        std::copy(l[i].snap.begin(), l[i].snap.end(), g.data().data());
        cd r;
        under([&] { r = density(g); });
        if (!(std::abs(r - want(0, 0)) < 1e-11 * (1 + nl * nl))) FAIL("density", "the density is off by %.3g", std::abs(r - want(0, 0)));
      } else {
        nda::matrix<cd> r;
        under([&] { r = density(l[i].g); });
        if (r.shape() != std::array<long, 2>{sh[1], sh[0]}) FAIL("density", "the density has another shape");
        for (long x = 0; x < sh[0]; ++x)
          for (long y = 0; y < sh[1]; ++y)
            if (!(std::abs(r(y, x) - want(x, y)) < 1e-11 * (1 + nl * nl))) FAIL("density", "the density (%ld,%ld) is off by %.3g", y, x, std::abs(r(y, x) - want(x, y)));
      }
      sim::probe("density");
    }
    // integrals over real frequencies
    void refr(Draw &d, int form) {
      long n = d.i(1, 2), N = d.i(2, 60);
      double a = -d.u(0.5, 4), b = a + d.u(0.2, 8);
      if (d.p(0.3)) b = d.p(0.5) ? -a : 0;
      refreq m{a, b, N};
      gf<refreq> g{m, {n, n}};
      for (long q = 0; q < g.data().size(); ++q) g.data().data()[q] = d.c();
      auto v    = flat(g.data());
      double dw = (b - a) / (N - 1), beta = d.of<double>({1, 10, 100});
      // spectral function, and its integral up to zero with a line between the points, or over all with the Fermi function
      auto A = [&](long w, long r, long c) {
        cd x = v[(w * n + r) * n + c], y = v[(w * n + c) * n + r];
        return cd(0, 1) * (x - std::conj(y)) / (2 * M_PI);
      };
      bool cold = form % 2;
      auto want = [&](long r, long c) {
        cd s = 0;
        if (!cold) {
          for (long w = 0; w < N; ++w) s += A(w, r, c) * dw / (1 + std::exp(beta * (a + w * dw)));
          return s;
        }
        for (long w = 0; w + 1 < N; ++w) {
          double x = a + w * dw, y = x + dw;
          if (x >= -1e-12) break;
          double t = y <= 1e-12 ? 1 : -x / dw; // this part of the interval
          s += dw * (A(w, r, c) * (t - t * t / 2) + A(w + 1, r, c) * t * t / 2.0);
        }
        return s;
      };
      if (cold && b < 0) return;
      nda::matrix<cd> res;
      cd sc;
      bool scalar = n == 1 && form / 2 % 2;
      if (scalar) {
        gf<refreq, scalar_valued> h{m};
        std::copy(v.begin(), v.end(), h.data().data());
        under([&] { sc = cold ? density(h) : density(h, beta); });
      } else
        under([&] { res = cold ? density(g) : density(g, beta); });
      if (!same_bits(v, flat(g.data()))) FAIL("changed", "the operand changed");
      for (long r = 0; r < n; ++r)
        for (long c = 0; c < n; ++c) {
          cd x = scalar ? sc : cd(res(r, c));
          if (!(std::abs(x - want(r, c)) < 1e-9 * (1 + N * dw))) FAIL("density", "the %s density (%ld,%ld) over %ld frequencies from %g to %g is off by %.3g", cold ? "zero temperature" : "thermal", r, c, N, a, b, std::abs(x - want(r, c)));
        }
      sim::probe("density");
    }
    // a given jump at zero, changing the coefficients as little as possible
    void disc(int i, Draw &d) {
      if (!l[i].ok) make(i, d);
      auto sh  = l[i].g.target_shape();
      long nl = npts(l[i].g.mesh()), ne = sh[0] * sh[1];
      double b = l[i].g.mesh().beta();
      nda::array<double, 2> want(sh[0], sh[1]);
      for (long q = 0; q < ne; ++q) want.data()[q] = d.u(-2, 2);
      std::vector<double> t(nl);
      double norm = 0;
      for (long k = 0; k < nl; ++k) {
        t[k] = k % 2 ? 0 : -2 * std::sqrt(2.0 * k + 1) / b;
        norm += t[k] * t[k];
      }
      auto e = l[i].snap;
      for (long q = 0; q < ne; ++q) {
        cd m = 0;
        for (long k = 0; k < nl; ++k) m += t[k] * l[i].snap[k * ne + q];
        for (long k = 0; k < nl; ++k) e[k * ne + q] += (want.data()[q] - m) * t[k] / norm;
      }
      auto view = l[i].g();
      l[i].ok   = false;
      under([&] { enforce_discontinuity(view, want); });
      cmp(l[i].g, e, 1e-9 * (1 + b));
      l[i].note(), l[i].ok = true;
      sim::probe("discontinuity");
    }
    void rebin(Draw &d) {
      long n = d.i(2, 60), m = d.i(2, 70);
      if (d.p(0.5)) m = d.i(2, n);
      double b = d.of<double>({1, 10});
      gf<imtime> g{{b, d.p(0.5) ? Fermion : Boson, n}, {d.i(1, 2), d.i(1, 2)}};
      for (long q = 0; q < g.data().size(); ++q) g.data().data()[q] = d.c();
      auto v  = flat(g.data());
      long ne = v.size() / n;
      std::vector<cd> e(m * ne);
      std::vector<long> cnt(m);
      // ties may go either way
      for (long t = 0; t < n; ++t)
        if ((2 * t * (m - 1)) % (n - 1) == 0 && (2 * t * (m - 1)) / (n - 1) % 2) return;
      for (long t = 0; t < n; ++t) {
        long k = (2 * t * (m - 1) + (n - 1)) / (2 * (n - 1));
        ++cnt[k];
        for (long x = 0; x < ne; ++x) e[k * ne + x] += v[t * ne + x];
      }
      for (long k = 0; k < m; ++k)
        for (long x = 0; x < ne; ++x)
          if (cnt[k]) e[k * ne + x] /= (double)cnt[k];
      std::optional<gf<imtime>> r;
      under([&] { r.emplace(rebinning_tau(g, (size_t)m)); });
      if (!same_bits(v, flat(g.data()))) FAIL("changed", "the operand changed");
      if (!(r->mesh() == imtime{b, g.mesh().statistic(), m})) FAIL("mesh", "the mesh of the result is another one");
      cmp(*r, e, 1e-11);
      sim::probe("rebinned");
    }
    // Pade approximants reproduce rational functions
    void pade_(Draw &d, int form) {
      double beta = d.u(2, 20);
      long np = d.i(1, 2), n = d.i(2 * np, 2 * np + 3);
      bool fermi = d.p(0.7);
      imfreq mw{beta, fermi ? Fermion : Boson, std::max(n, 4l) + d.i(0, 3), d.p(0.3) ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies};
      auto p  = Poles::make(d, {}, false, true, 2);
      p.fermi = fermi, p.beta = beta;
      p.e.resize(np, d.u(-2, 2));
      p.a.resize(np, std::vector<cd>{cd(d.u(0.3, 1))});
      for (long k = 0; k < np; ++k) {
        p.a[k][0] = d.u(0.3, 1);
        p.e[k]    = (k ? 1 : -1) * d.u(0.4, 2);
      }
      gf<imfreq, scalar_valued> g{mw};
      fill(g, p);
      refreq mr{-3, 3, d.i(2, 15)};
      gf<refreq, scalar_valued> r{mr};
      r.data()   = cd(1, 2);
      double eta = d.u(0.2, 1);
      auto before   = flat(g.data());
      unsigned prec = mpf_get_default_prec();
      bool bad      = form % 4 == 0;
      std::vector<cd> e;
      auto pos = flat(r.data());
      if (bad) {
        int wrong = d.p(0.5) ? -(int)d.i(0, 3) : (int)(mw.last_index() + 2 + d.i(0, 3));
        if (!refused([&] { pade(r, g, wrong, eta); })) FAIL("accepted", "an approximant from %d of %ld frequencies was not refused", wrong, mw.last_index() + 1);
        if (!same_bits(pos, flat(r.data()))) FAIL("changed", "a refused continuation changed its target");
        sim::probe("refused");
      } else if (form % 4 == 1) { // a value that is zero where the approximant divides by it
        g[0]  = cd(0.5, -1);
        g[1]  = 0;
        before = flat(g.data());
        refused([&] { pade(r, g, (int)n, eta); });
        sim::probe("pade-zero");
      } else {
        under([&] { pade(r, g, (int)n, eta); });
        for (auto const &w : mr) e.push_back(p.z(0, cd(double(w), eta)));
        cmp(r, e, 1e-5 * p.size(0) / eta);
        sim::probe("pade");
      }
      if (mpf_get_default_prec() != prec) FAIL("precision", "the default precision of GMP, %u bits before, is %lu after", prec, (unsigned long)mpf_get_default_prec());
      if (!same_bits(before, flat(g.data()))) FAIL("changed", "the operand changed");
    }
    void refuse(int i, Draw &d, int form) {
      gf<imfreq> g{{5, Fermion, 10, imfreq::option::positive_frequencies_only}, {1, 1}};
      g.data() = cd(0.1);
      if (form % 2) {
        if (!refused([&] { auto x = density(g); })) FAIL("accepted", "the density of positive frequencies only");
      } else {
        gf<imfreq> h{{5, Fermion, 10}, {1, 1}};
        h.data() = cd(0.1);
        nda::array<cd, 3> m(4, 1, 1);
        m()        = 0;
        m(0, 0, 0) = 0.1;
        if (!refused([&] { auto x = density(h, m); })) FAIL("accepted", "the density of a function with a zeroth moment");
      }
      sim::probe("refused");
    }
    void run(sim::Op const &op) override {
      int i = (int)op.arg(0) & 1, form = (int)op.arg(3);
      Draw d(op.arg(2));
      auto &n = op.name;
      if (n == "make") make(i, d);
      else if (n == "direct") direct(i, d, form);
      else if (n == "inverse") inverse(i, d, form);
      else if (n == "density") dens(i, d, form);
      else if (n == "refreq") refr(d, form);
      else if (n == "disc") disc(i, d);
      else if (n == "rebin") rebin(d);
      else if (n == "pade") pade_(d, form);
      else if (n == "refuse") refuse(i, d, form);
    }
  };
  std::unique_ptr<Proc> make_leg() { return std::make_unique<Leg>(); }
} // namespace tw
