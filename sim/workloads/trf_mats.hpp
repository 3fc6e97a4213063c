// Matsubara frequencies and imaginary times, for one target
#pragma once
#include "trf_common.hpp"
namespace tw {
  template <typename T> struct Mats : Proc {
    static constexpr int R = T::rank;
    using W                = gf<imfreq, T>;
    using G                = gf<imtime, T>;
    using A                = nda::array<cd, R + 1>;
    Slot<W> w[2];
    Slot<G> t[2];

    static auto shape(Poles const &p) { return arr<R>(p.ts); }
    std::vector<long> target(Draw &d) {
      std::vector<long> s;
      for (int i = 0; i < R; ++i) s.push_back(d.i(1, 3));
      if (R == 2 && d.p(0.6)) s[1] = s[0];
      return s;
    }
    // pick meshes that go together: n frequencies, l + 1 times
    static void sizes(Draw &d, Poles const &p, long &n, long &l) {
      n = d.of<long>({1, 2, 3, 6, 12, 20, 40});
      l = d.of<long>({2 * n, 2 * n + 1, 6 * n, 6 * n + 1, 10 * n, 50, 101, 200, 400});
      l = std::max(l, 2 * n);
    }
    static imfreq wmesh(Poles const &p, long n, bool pos = false) { return {p.beta, p.stat(), n, pos ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies}; }
    static imtime tmesh(Poles const &p, long l) { return {p.beta, p.stat(), l + 1}; }

    // how far from the exact ones the frequencies may be, from exact times with l intervals and q known moments (-1: none given)
    static double dbound(G const *g, Poles const &p, long l, int q) {
      double dt = p.beta / l, top = M_PI / dt, x = p.emax() * dt;
      double loose = 4 * (p.size(0) * dt * 2 + p.size(1) * dt * dt) + 1e-10;
      if (q < 0) { // fitted, if the data look smooth
        auto v = flat(g->data());
        long n = p.n();
        auto at = [&](long i, long e) { return cd(v[i * n + e]); };
        double d1 = 0, d2 = 0;
        for (long e = 0; e < n; ++e) {
          d1 = std::max(d1, std::abs(at(1, e) - at(0, e)) + std::abs(at(l - 1, e) - at(l, e)));
          d2 = std::max(d2, 0.5 * (std::abs(at(2, e) - at(0, e)) + std::abs(at(l - 2, e) - at(l, e))));
        }
        if (d1 < 0.96 * d2 || d1 > 1.04 * d2 || x > 0.5 || l < 8) return loose;
        sim::probe("fitted-moments");
        double f2 = 30 * p.size(1) * std::pow(x, 8) + 1e-12 / dt, f3 = 60 * p.size(2) * std::pow(x, 7) + 1e-11 / (dt * dt);
        return std::min(loose, 6 * p.rest(3, top) + 4 * f2 / (top * top) + 4 * f3 / (top * top * top) + 1e-10);
      }
      double b = 6 * p.rest(q, top) + 1e-10;
      return q == 0 ? loose : std::min(b, 4 * loose);
    }
    // the same for times from n frequencies and at least three moments
    static double ibound(Poles const &p, long n) {
      double lo = M_PI * (2 * n - 1) / p.beta; // frequencies from there on are missing
      return 4 * p.rest(3, lo) * lo / M_PI / 1.5 + 4 * p.rest(3, M_PI * (2 * n) / p.beta) / p.beta + 1e-10;
    }
    void make_w(int i, Draw &d) {
      auto p = Poles::make(d, target(d), d.p(0.5), d.p(0.3), 2.5);
      long n, l;
      sizes(d, p, n, l);
      put(w[i], W{wmesh(p, n), shape(p)}, p);
    }
    void make_t(int i, Draw &d) {
      auto p = Poles::make(d, target(d), d.p(0.5), d.p(0.3), 2.5);
      long n, l;
      sizes(d, p, n, l);
      put(t[i], G{tmesh(p, l), shape(p)}, p);
    }
    template <typename S, typename X> static void put(S &s, X g, Poles const &p) {
      fill(g, p);
      s.g = std::move(g);
      s.f = p, s.err = 0, s.ok = true;
      s.note();
    }
    void check() override {
      w[0].check("a function of frequency");
      w[1].check("a function of frequency");
      t[0].check("a function of time");
      t[1].check("a function of time");
    }
    // the result of a transform
    template <typename S> void done(S &s, Poles const &p, double bound) {
      auto v = deviation(s.g, p);
      if (!(v <= bound)) FAIL("value", "the result is off by %.3g, more than %.3g (beta %g, %s, %ld points)", v, bound, p.beta, p.fermi ? "fermions" : "bosons", npts(s.g.mesh()));
      s.f = p, s.err = bound, s.ok = true;
      s.note();
      sim::probe("transformed");
    }

    void direct(int i, int j, Draw &d, int form) {
      if (!t[i].ok || t[i].err > 1e-6) make_t(i, d);
      auto &src = t[i];
      auto p    = src.f;
      long l    = npts(src.g.mesh()) - 1;
      long n    = d.of<long>({l / 2, l / 2, l / 6, l / 10, 1, std::max(1l, l / 2 - 1)});
      n         = std::min(std::max(n, 1l), 60l);
      n         = std::min(n, l / 2);
      int q     = src.err > 0 || d.p(0.7) ? (int)d.i(0, 5) : -1; // known moments beyond the zeroth one
      if (src.err > 0) q = std::max(q, 3);
      A km;
      if (q >= 0) km = moments<R + 1>(p, q + 1);
      double bound = dbound(&src.g, p, l, std::min(q, 3)) + src.err * p.beta * 3;
      auto mesh    = wmesh(p, n, d.p(0.1));
      switch (form % 6) {
        case 0: // a new object
          if (q >= 0)
            under([&] { w[j].g = make_gf_from_fourier(src.g, mesh, km); });
          else
            under([&] { w[j].g = make_gf_from_fourier(src.g, mesh); });
          break;
        case 1: { // into one that is there
          W x{mesh, shape(p)};
          x.data() = cd(17, 3);
          w[j].ok  = false;
          w[j].g   = std::move(x);
          w[j].ok  = true;
          w[j].f   = p;
          w[j].err = INFINITY;
          w[j].note();
          if (q >= 0)
            under([&] { w[j].g() = fourier(src.g, km); });
          else
            under([&] { w[j].g() = fourier(src.g); });
          break;
        }
        case 2: // from a view
          if (q >= 0)
            under([&] { w[j].g = make_gf_from_fourier(src.g(), mesh, km); });
          else
            under([&] { w[j].g = make_gf_from_fourier(gf_const_view<imtime, T>{src.g}, mesh); });
          break;
        case 3: { // with the number of frequencies
          bool given = d.p(0.5);
          under([&] { w[j].g = given ? make_gf_from_fourier(src.g, (int)n) : make_gf_from_fourier(src.g()); });
          if (!(w[j].g.mesh() == wmesh(p, given ? n : w[j].g.mesh().last_index() + 1)) || (!given && 6 * (w[j].g.mesh().last_index() + 1) > l)) FAIL("mesh", "another mesh of frequencies than asked for, or more than a sixth of the %ld times", l);
          bound = dbound(&src.g, p, l, -1) + src.err * 1e3;
          if (src.err > 0) bound = INFINITY;
          break;
        }
        case 4: { // a real function of time
          using TR = typename T::real_t;
          for (auto &x : p.a)
            for (auto &y : x) y = y.real();
          gf<imtime, TR> r{src.g.mesh(), shape(p)};
          fill(r, p);
          auto before = flat(r.data());
          auto keep   = gf<imtime, T>{r};
          if (q >= 0) km = moments<R + 1>(p, q + 1);
          bound = dbound(&keep, p, l, std::min(q, 3));
          if (q >= 0)
            under([&] { w[j].g = make_gf_from_fourier(r, mesh, km); });
          else
            under([&] { w[j].g = make_gf_from_fourier(r, mesh); });
          if (!same_bits(before, flat(r.data()))) FAIL("changed", "the real function of time changed");
          break;
        }
        case 5: // part of a larger function
          if constexpr (R == 2) {
            long a = d.i(0, 2), b = d.i(0, 2);
            W x{mesh, std::array<long, 2>{p.ts[0] + 3, p.ts[1] + 3}};
            x.data()    = cd(5, -7);
            auto before = flat(x.data());
            auto v      = slice_target(x, nda::range(a, a + p.ts[0]), nda::range(b, b + p.ts[1]));
            if (q >= 0)
              under([&] { v = fourier(src.g, km); });
            else
              under([&] { v = fourier(src.g); });
            auto now = flat(x.data());
            long k   = 0;
            for (long m = 0; m < npts(mesh); ++m)
              for (long r = 0; r < p.ts[0] + 3; ++r)
                for (long c = 0; c < p.ts[1] + 3; ++c, ++k)
                  if ((r < a || r >= a + p.ts[0] || c < b || c >= b + p.ts[1]) && now[k] != before[k]) FAIL("outside", "an element outside of the view that was assigned to changed");
            W y{mesh, shape(p)};
            y()    = v;
            w[j].g = std::move(y);
          } else {
            under([&] { w[j].g = q >= 0 ? make_gf_from_fourier(src.g, mesh, km) : make_gf_from_fourier(src.g, mesh); });
          }
      }
      done(w[j], p, bound);
    }

    void inverse(int i, int j, Draw &d, int form) {
      if (!w[i].ok || w[i].err > 1e-6 || !npts(w[i].g.mesh()) || w[i].g.mesh().positive_only()) make_w(i, d);
      auto &src = w[i];
      auto p    = src.f;
      long n    = src.g.mesh().last_index() + 1;
      long l    = d.of<long>({2 * n, 2 * n + 1, 6 * n, 100, 250});
      l         = std::max(l, 2 * n);
      // tails can be fitted if there is one
      bool fit     = src.err == 0 && n >= 20 && p.emax() < 0.05 * M_PI * 2 * n / p.beta && d.p(0.5);
      int q        = fit ? (int)d.i(-1, 2) : (int)d.i(3, 6);
      double bound = ibound(p, n) + src.err * 3 * n / p.beta;
      if (fit) {
        sim::probe("fitted-tail");
        bound += 2e-4 * p.size(0);
      }
      A km;
      if (q >= 0) km = moments<R + 1>(p, q + 1);
      auto mesh = tmesh(p, l);
      switch (form % 5) {
        case 0:
          if (q >= 0)
            under([&] { t[j].g = make_gf_from_fourier(src.g, mesh, km); });
          else
            under([&] { t[j].g = make_gf_from_fourier(src.g, mesh); });
          break;
        case 1: {
          G x{mesh, shape(p)};
          x.data() = cd(17, 3);
          t[j].g   = std::move(x);
          t[j].ok  = true;
          t[j].f   = p;
          t[j].err = INFINITY;
          t[j].note();
          if (q >= 0)
            under([&] { t[j].g() = fourier(src.g(), km); });
          else
            under([&] { t[j].g() = fourier(src.g()); });
          break;
        }
        case 2:
          if (q >= 0)
            under([&] { t[j].g = make_gf_from_fourier(src.g(), mesh, km); });
          else
            under([&] { t[j].g = make_gf_from_fourier(gf_const_view<imfreq, T>{src.g}, mesh); });
          break;
        case 3:
          if (fit) {
            bool given = d.p(0.5);
            under([&] { t[j].g = given ? make_gf_from_fourier(src.g, (int)l + 1) : make_gf_from_fourier(src.g()); });
            if (!(t[j].g.mesh() == tmesh(p, given ? l : npts(t[j].g.mesh()) - 1)) || (!given && npts(t[j].g.mesh()) - 1 < 6 * n)) FAIL("mesh", "another mesh of times than asked for, or less than six times the %ld frequencies", n);
            break;
          }
          under([&] { t[j].g = make_gf_from_fourier(src.g, mesh, km); });
          break;
        case 4: // times of a part of a larger function
          if constexpr (R == 2) {
            W x{src.g.mesh(), std::array<long, 2>{p.ts[0] + 1, p.ts[1] + 2}};
            x.data() = cd(50, -7);
            auto v   = slice_target(x, nda::range(1, 1 + p.ts[0]), nda::range(0, p.ts[1]));
            v        = src.g;
            auto b   = flat(x.data());
            if (q >= 0)
              under([&] { t[j].g = make_gf_from_fourier(v, mesh, km); });
            else
              under([&] { t[j].g = make_gf_from_fourier(v, mesh); });
            if (!same_bits(b, flat(x.data()))) FAIL("changed", "the operand changed");
          } else {
            under([&] { t[j].g = q >= 0 ? make_gf_from_fourier(src.g, mesh, km) : make_gf_from_fourier(src.g, mesh); });
          }
      }
      done(t[j], p, bound);
    }

    // blocks of functions
    void block(Draw &d, int form) {
      bool two = form % 2;
      long n1 = d.i(1, 2), n2 = two ? d.i(1, 2) : 1;
      long n = d.of<long>({2, 6, 20}), l = d.of<long>({2 * n, 6 * n, 100});
      auto stat0 = Poles::make(d, target(d), false, false, 2);
      std::vector<Poles> p;
      std::vector<G> gt;
      std::vector<W> gw;
      std::vector<A> km;
      for (long k = 0; k < n1 * n2; ++k) {
        auto q  = Poles::make(d, target(d), false, false, 2);
        q.fermi = stat0.fermi, q.beta = stat0.beta;
        gt.emplace_back(tmesh(q, l), shape(q));
        gw.emplace_back(wmesh(q, n), shape(q));
        fill(gt.back(), q);
        fill(gw.back(), q);
        km.push_back(moments<R + 1>(q, 4));
        p.push_back(q);
      }
      std::vector<std::string> names1, names2;
      for (long k = 0; k < n1; ++k) names1.push_back(std::string(1, char('a' + k)));
      for (long k = 0; k < n2; ++k) names2.push_back(std::string(1, char('x' + k)));
      auto cmp = [&](auto const &g, long k, double bound) {
        double v = deviation(g, p[k], false);
        if (!(v <= bound)) FAIL("value", "block %ld is off by %.3g, more than %.3g", k, v, bound);
      };
      sim::probe("blocks");
      if (!two) {
        block_gf<imtime, T> bt{names1, gt};
        block_gf<imfreq, T> bw{names1, gw};
        bool miss = d.p(0.15);
        if (miss) km.pop_back();
        auto go = [&](auto const &src, auto const &m, auto bound) {
          std::optional<std::decay_t<decltype(make_gf_from_fourier(src, m, km))>> r;
          if (miss) {
            if (!refused([&] { r.emplace(make_gf_from_fourier(src, m, km)); })) FAIL("accepted", "moments of %ld blocks for %ld", (long)km.size(), n1);
            return;
          }
          under([&] { r.emplace(make_gf_from_fourier(src, m, km)); });
          if (r->block_names() != names1) FAIL("names", "the names of the blocks are not those of the operand");
          for (long k = 0; k < n1; ++k) cmp((*r)[k], k, bound(k));
        };
        if (form / 2 % 2)
          go(bt, wmesh(stat0, n), [&](long k) { return dbound(nullptr, p[k], l, 3); });
        else
          go(bw, tmesh(stat0, l), [&](long k) { return ibound(p[k], n); });
        if (form / 4 % 2) { // without moments
          std::optional<block_gf<imfreq, T>> r;
          under([&] { r.emplace(make_gf_from_fourier(bt, wmesh(stat0, n))); });
          for (long k = 0; k < n1; ++k) cmp((*r)[k], k, dbound(&gt[k], p[k], l, -1));
        }
      } else {
        std::vector<std::vector<G>> gt2(n1);
        std::vector<std::vector<W>> gw2(n1);
        std::vector<std::vector<A>> km2(n1);
        for (long a = 0; a < n1; ++a)
          for (long b = 0; b < n2; ++b) {
            gt2[a].push_back(gt[a * n2 + b]);
            gw2[a].push_back(gw[a * n2 + b]);
            km2[a].push_back(km[a * n2 + b]);
          }
        std::vector<std::vector<std::string>> names{names1, names2};
        block2_gf<imtime, T> bt{names, gt2};
        block2_gf<imfreq, T> bw{names, gw2};
        auto go = [&](auto const &src, auto const &m, auto bound) {
          std::optional<std::decay_t<decltype(make_gf_from_fourier(src, m, km2))>> r;
          under([&] { r.emplace(make_gf_from_fourier(src, m, km2)); });
          if (r->block_names() != names) FAIL("names", "the names of the blocks are not those of the operand");
          for (long a = 0; a < n1; ++a)
            for (long b = 0; b < n2; ++b) cmp((*r)(a, b), a * n2 + b, bound(a * n2 + b));
        };
        if (form / 2 % 2)
          go(bt, wmesh(stat0, n), [&](long k) { return dbound(nullptr, p[k], l, 3); });
        else
          go(bw, tmesh(stat0, l), [&](long k) { return ibound(p[k], n); });
      }
    }

    // functions of two times, one of them transformed, or both: a product of two known functions
    void prod(Draw &d, int form) {
      auto p = Poles::make(d, target(d), false, false, 1.5);
      auto q = Poles::make(d, {}, false, false, 1.5);
      long n = d.of<long>({2, 4}), l = d.of<long>({6 * n, 6 * n + 6, 30}), n2 = d.of<long>({1, 3}), l2 = d.of<long>({6 * n2, 24, 6 * n2 + 7});
      auto mt = tmesh(p, l);
      auto mw = wmesh(p, n);
      imtime mt2{q.beta, q.stat(), l2 + 1};
      imfreq mw2{q.beta, q.stat(), n2};
      long ne = p.n();
      gf<mesh::prod<imtime, imtime>, T> g{{mt, mt2}, shape(p)};
      for (long a = 0; a <= l; ++a)
        for (long b = 0; b <= l2; ++b)
          for (long e = 0; e < ne; ++e) g.data().data()[(a * (l2 + 1) + b) * ne + e] = p.tau(e, p.beta * a / l) * q.tau(0, q.beta * b / l2);
      auto before = flat(g.data());
      double bp = dbound(nullptr, p, l, 0), bq = dbound(nullptr, q, l2, 0); // fitted or not
      double mp = 2 * p.size(0) / (1 - std::exp(-p.beta * 0.3)), mq = 2 * q.size(0) / (1 - std::exp(-q.beta * 0.3));
      auto cmp = [&](auto const &r, long na, long nb, auto ea, auto eb, double bound) {
        auto v = flat(r.data());
        if ((long)v.size() != na * nb * ne) FAIL("shape", "the result has %ld numbers for %ld points and %ld elements", (long)v.size(), na * nb, ne);
        for (long a = 0; a < na; ++a)
          for (long b = 0; b < nb; ++b)
            for (long e = 0; e < ne; ++e) {
              cd x = v[(a * nb + b) * ne + e], y = ea(a, e) * eb(b);
              if (!(std::abs(x - y) <= bound)) FAIL("value", "the result at (%ld, %ld), element %ld, is off by %.3g, more than %.3g", a, b, e, std::abs(x - y), bound);
            }
      };
      auto pt = [&](long a, long e) { return p.tau(e, p.beta * a / l); };
      auto pw = [&](long a, long e) { return p.z(e, p.freq(a + mw.first_index())); };
      auto qt = [&](long b) { return q.tau(0, q.beta * b / l2); };
      auto qw = [&](long b) { return q.z(0, q.freq(b + mw2.first_index())); };
      long nw = npts(mw), nw2 = npts(mw2);
      bool known = d.p(0.5);
      sim::probe("products");
      // moments of a product: those of the function transformed times the values of the other one
      auto prod_moments = [&](int axis) {
        std::vector<long> sh{4, axis ? l + 1 : l2 + 1};
        sh.insert(sh.end(), p.ts.begin(), p.ts.end());
        nda::array<cd, R + 2> m(arr<R + 2>(sh));
        for (int k = 0; k < 4; ++k)
          for (long b = 0; b < sh[1]; ++b)
            for (long e = 0; e < ne; ++e) m.data()[(k * sh[1] + b) * ne + e] = axis ? q.mom(0, k) * pt(b, e) : p.mom(e, k) * qt(b);
        return m;
      };
      double kp = 6 * p.rest(3, M_PI * l / p.beta) + 1e-10, kq = 6 * q.rest(3, M_PI * l2 / q.beta) + 1e-10;
      switch (form % 5) {
        case 0: {
          std::optional<gf<mesh::prod<imfreq, imtime>, T>> r;
          auto km = prod_moments(0);
          if (known)
            under([&] { r.emplace(make_gf_from_fourier<0>(g, mw, km)); });
          else
            under([&] { r.emplace(make_gf_from_fourier<0>(g, mw)); });
          cmp(*r, nw, l2 + 1, pw, qt, (known ? kp : bp) * mq);
          break;
        }
        case 1: {
          std::optional<gf<mesh::prod<imtime, imfreq>, T>> r;
          auto km = prod_moments(1);
          if (known)
            under([&] { r.emplace(make_gf_from_fourier<1>(g, mw2, km)); });
          else
            under([&] { r.emplace(make_gf_from_fourier<1>(g(), mw2)); });
          cmp(*r, l + 1, nw2, pt, qw, (known ? kq : bq) * mp);
          break;
        }
        case 2: {
          gf<mesh::prod<imtime, imfreq>, T> r{{mt, mw2}, shape(p)};
          r.data() = cd(11);
          auto km  = prod_moments(1);
          if (known)
            under([&] { r() = fourier<1>(g, km); });
          else
            under([&] { r() = fourier<1>(g); });
          cmp(r, l + 1, nw2, pt, qw, (known ? kq : bq) * mp);
          break;
        }
        case 3: {
          std::optional<gf<mesh::prod<imfreq, imfreq>, T>> r;
          under([&] { r.emplace(make_gf_from_fourier<0, 1>(g, mw, mw2)); });
          cmp(*r, nw, nw2, pw, qw, 2 * (bp * (mq + bq) * q.beta + bq * (mp + bp) * p.beta));
          break;
        }
        case 4: { // of a function with one variable kept: a view
          long b  = d.i(0, l2);
          auto km = moments<R + 1>(p, 4);
          km *= qt(b);
          gf<mesh::prod<imfreq, imtime>, T> r{{mw, mt2}, shape(p)};
          r.data()  = cd(11);
          auto view = r[nda::range::all, mt2[b]];
          under([&] { view = fourier(g[nda::range::all, mt2[b]], km); });
          auto v = flat(r.data());
          for (long a = 0; a < nw; ++a)
            for (long c = 0; c <= l2; ++c)
              for (long e = 0; e < ne; ++e) {
                cd x = v[(a * (l2 + 1) + c) * ne + e], y = c == b ? pw(a, e) * qt(b) : cd(11);
                if (!(std::abs(x - y) <= (c == b ? kp * mq : 0))) FAIL("value", "the view of a product at (%ld, %ld), element %ld, is off by %.3g", a, c, e, std::abs(x - y));
              }
          break;
        }
      }
      if (!same_bits(before, flat(g.data()))) FAIL("changed", "the operand changed");
    }

    void dens(Draw &d, int form) {
      if constexpr (R == 0 || R == 2) {
        auto ts = target(d);
        if (R == 2) ts[1] = ts[0];
        auto p = Poles::make(d, ts, true, false, 2.5);
        long n = d.of<long>({1, 2, 6, 20, 40});
        bool fit = n >= 20 && p.emax() < 0.05 * M_PI * 2 * n / p.beta && d.p(0.5);
        int q    = fit ? (int)d.i(-1, 2) : (int)d.i(3, 6);
        A km;
        if (q >= 0) km = moments<R + 1>(p, q + 1);
        double bound = ibound(p, n) + (fit ? 2e-4 * p.size(0) : 0);
        W g{wmesh(p, n), shape(p)};
        fill(g, p);
        auto before = flat(g.data());
        auto cmp    = [&](auto const &r) {
          for (long e = 0; e < p.n(); ++e) {
            cd x;
            if constexpr (R == 0)
              x = r;
            else
              x = r(e / p.ts[0], e % p.ts[0]);
            if (!(std::abs(x - p.density(e)) <= bound)) FAIL("density", "element %ld of the density is off by %.3g, more than %.3g", e, std::abs(x - p.density(e)), bound);
          }
        };
        using D = std::conditional_t<R == 0, cd, nda::matrix<cd>>;
        D r;
        if (form % 3 == 0) {
          block_gf<imfreq, T> b{{"a", "b"}, {g, g}};
          std::vector<D> v;
          std::vector<A> kms{km, km};
          under([&] { v = density(b, kms); });
          if (v.size() != 2) FAIL("density", "densities of %ld blocks", (long)v.size());
          cmp(v[0]);
          cmp(v[1]);
        } else {
          if (q >= 0)
            under([&] { r = density(g, km); });
          else
            under([&] { r = density(g()); });
          cmp(r);
        }
        if (!same_bits(before, flat(g.data()))) FAIL("changed", "the operand changed");
        sim::probe("density");
      }
    }

    // requests that have no answer
    void refuse(int i, int j, Draw &d, int form) {
      if (!t[i].ok) make_t(i, d);
      if (!w[j].ok || !npts(w[j].g.mesh()) || w[j].g.mesh().positive_only()) make_w(j, d);
      long l = npts(t[i].g.mesh()) - 1, n = w[j].g.mesh().last_index() + 1;
      auto pt = t[i].f, pw = w[j].f;
      bool r = false;
      char const *what = "";
      switch (form % 6) {
        case 0: // more frequencies than the times can tell
          what = "more frequencies than half of the times";
          r    = refused([&] { auto x = make_gf_from_fourier(t[i].g, wmesh(pt, l / 2 + 1 + d.i(0, 3)), moments<R + 1>(pt, 4)); });
          break;
        case 1:
          what = "fewer times than twice the frequencies";
          r    = refused([&] { auto x = make_gf_from_fourier(w[j].g, tmesh(pw, std::max(1l, 2 * n - 1 - d.i(0, 2))), moments<R + 1>(pw, 4)); });
          break;
        case 2: {
          auto m       = moments<R + 1>(pt, 4);
          m.data()[d.i(0, pt.n() - 1)] = d.of<cd>({cd(0.5, 0), cd(0, 1e-3), cd(-2, 1)});
          what = "a function with a zeroth moment";
          r    = refused([&] { auto x = make_gf_from_fourier(t[i].g, wmesh(pt, std::max(1l, l / 2)), m); });
          break;
        }
        case 3: {
          auto m       = moments<R + 1>(pw, d.i(1, 5));
          m.data()[d.i(0, pw.n() - 1)] = d.of<cd>({cd(0.5, 0), cd(0, 1e-3), cd(-2, 1)});
          what = "a function with a zeroth moment";
          r    = refused([&] { auto x = make_gf_from_fourier(w[j].g, tmesh(pw, 6 * n), m); });
          break;
        }
        case 4: {
          W x{wmesh(pw, n, true), shape(pw)};
          fill(x, pw);
          what = "positive frequencies only";
          r    = refused([&] { auto y = make_gf_from_fourier(x, tmesh(pw, 6 * n), moments<R + 1>(pw, 4)); });
          break;
        }
        case 5: { // into an object that is there and stays as it is
          what = "times from too many frequencies";
          G x{tmesh(pw, std::max(1l, 2 * n - 1)), shape(pw)};
          x.data() = cd(3);
          auto b   = flat(x.data());
          auto km  = moments<R + 1>(pw, 4);
          r        = refused([&] { x() = fourier(w[j].g, km); });
          if (!same_bits(b, flat(x.data()))) FAIL("changed", "a refused transform changed its target");
          break;
        }
      }
      if (!r) FAIL("accepted", "the transform of %s was not refused", what);
      sim::probe("refused");
    }

    void run(sim::Op const &op) override {
      int i = (int)op.arg(0) & 1, j = (int)op.arg(1) & 1, form = (int)op.arg(3);
      Draw d(op.arg(2));
      auto &n = op.name;
      if (n == "make") {
        if (form % 2)
          make_w(j, d);
        else
          make_t(j, d);
      } else if (n == "direct") direct(i, j, d, form);
      else if (n == "inverse") inverse(i, j, d, form);
      else if (n == "block") block(d, form);
      else if (n == "prod") prod(d, form);
      else if (n == "density") dens(d, form);
      else if (n == "refuse") refuse(i, j, d, form);
    }
  };
} // namespace tw
