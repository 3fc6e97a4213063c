// Real times and frequencies
#pragma once
#include "trf_common.hpp"
namespace tw {
  template <typename T> struct Real : Proc {
    static constexpr int R = T::rank;
    using G                = gf<retime, T>;
    using W                = gf<refreq, T>;
    using A                = nda::array<cd, R + 1>;
    Slot<G> t[2];
    Slot<W> w[2];
    static std::vector<long> target(Draw &d) {
      std::vector<long> s;
      for (int i = 0; i < R; ++i) s.push_back(d.i(1, 3));
      return s;
    }
    // L points that go together
    static std::pair<retime, refreq> meshes(Draw &d) {
      long L     = d.of<long>({2, 3, 4, 7, 16, 25, 40});
      double dt  = d.u(0.05, 0.7), dw = 2 * M_PI / (L * dt);
      double t0 = d.p(0.5) ? -dt * (L - 1) / 2 : d.u(-3, 3), w0 = d.p(0.5) ? -dw * (L - 1) / 2 : d.u(-3, 3);
      return {retime{t0, t0 + dt * (L - 1), L}, refreq{w0, w0 + dw * (L - 1), L}};
    }
    template <typename X> static void random(X &g, Draw &d) {
      for (long i = 0; i < g.data().size(); ++i) g.data().data()[i] = d.c();
    }
    template <typename S, typename X> static void put(S &s, X g) {
      s.g = std::move(g), s.ok = true;
      s.note();
    }
    void make(int i, Draw &d, bool time) {
      auto [mt, mw] = meshes(d);
      auto ts       = arr<R>(target(d));
      if (time) {
        G g{mt, ts};
        random(g, d);
        put(t[i], std::move(g));
      } else {
        W g{mw, ts};
        random(g, d);
        put(w[i], std::move(g));
      }
    }
    void check() override {
      for (int i = 0; i < 2; ++i) {
        t[i].check("a function of time");
        w[i].check("a function of frequency");
      }
    }
    static std::vector<double> points(auto const &m) {
      std::vector<double> r;
      for (auto const &x : m) r.push_back(double(x));
      return r;
    }
    // the sum, written out
    static std::vector<cd> sum(std::vector<cd> const &v, std::vector<double> const &from, std::vector<double> const &to, bool to_w) {
      long L = from.size(), n = v.size() / L;
      double dx = L > 1 ? (from[L - 1] - from[0]) / (L - 1) : 1;
      std::vector<cd> r(v.size());
      for (long a = 0; a < L; ++a)
        for (long b = 0; b < L; ++b) {
          cd f = std::polar(to_w ? dx : dx / (2 * M_PI), (to_w ? 1 : -1) * from[b] * to[a]);
          for (long e = 0; e < n; ++e) r[a * n + e] += f * v[b * n + e];
        }
      return r;
    }
    template <typename X> static void cmp(X const &g, std::vector<cd> const &e, double tol) {
      auto v = flat(g.data());
      if (v.size() != e.size()) FAIL("shape", "the result has %ld numbers, expected %ld", (long)v.size(), (long)e.size());
      for (size_t i = 0; i < v.size(); ++i)
        if (!(std::abs(v[i] - e[i]) <= tol)) FAIL("value", "element %ld is %.12g%+.12gi, expected %.12g%+.12gi", (long)i, v[i].real(), v[i].imag(), e[i].real(), e[i].imag());
    }
    static double biggest(std::vector<cd> const &v) {
      double m = 1;
      for (auto x : v) m = std::max(m, std::abs(x));
      return m;
    }
    static retime adjoint(refreq const &m, bool s) { return make_adjoint_mesh(m, s); }
    static refreq adjoint(retime const &m, bool s) { return make_adjoint_mesh(m, s); }

    // raw data, no moments known
    template <typename S, typename D> void ft(S &src, D &dst, Draw &d, int form) {
      constexpr bool to_w = std::is_same_v<S, Slot<G>>;
      bool half           = d.p(0.5);
      using X             = decltype(dst.g);
      auto mesh           = adjoint(src.g.mesh(), half);
      if (d.p(0.3)) { // anywhere
        double x0 = d.u(-3, 3), step = mesh.delta();
        mesh      = {x0, x0 + step * (mesh.size() - 1), (long)mesh.size()};
      }
      bool ours = mesh == adjoint(src.g.mesh(), half);
      A zero    = A::zeros(moments_shape(3, src.g));
      switch (form % 5) {
        case 0: under([&] { dst.g = make_gf_from_fourier(src.g, mesh); }); break;
        case 1:
          if (ours)
            under([&] { dst.g = half ? make_gf_from_fourier(src.g, true) : make_gf_from_fourier(src.g); });
          else
            under([&] { dst.g = make_gf_from_fourier(src.g(), mesh); });
          break;
        case 2: {
          X x{mesh, src.g.target_shape()};
          x.data() = cd(2, 2);
          put(dst, std::move(x));
          under([&] { dst.g() = fourier(src.g); });
          break;
        }
        case 3: under([&] { dst.g = make_gf_from_fourier(src.g, mesh, zero); }); break;
        case 4: {
          X x{mesh, src.g.target_shape()};
          x.data() = cd(2, 2);
          put(dst, std::move(x));
          under([&] { dst.g() = fourier(src.g(), zero); });
        }
      }
      if (!(dst.g.mesh() == mesh)) FAIL("mesh", "the mesh of the result is another one");
      auto e = sum(src.snap, points(src.g.mesh()), points(mesh), to_w);
      dst.ok = true;
      cmp(dst.g, e, 1e-10 * biggest(src.snap) * (1 + mesh.size()));
      dst.note();
      sim::probe("transformed");
    }
    template <typename X> static std::array<long, R + 1> moments_shape(long k, X const &g) {
      std::array<long, R + 1> s;
      s[0] = k;
      for (int i = 0; i < R; ++i) s[i + 1] = g.target_shape()[i];
      return s;
    }
    // there and back, with any moments given both times
    void trip(int i, Draw &d, int form) {
      bool time = form % 2;
      long L    = 0;
      auto go   = [&](auto &src) {
        auto m = adjoint(src.g.mesh(), d.p(0.5));
        A km   = A::zeros(moments_shape(d.i(3, 5), src.g));
        long n = km.size() / km.shape()[0];
        for (long q = n; q < km.size(); ++q) km.data()[q] = d.c() * 3.0;
        std::optional<std::decay_t<decltype(make_gf_from_fourier(src.g, m, km))>> y;
        std::optional<std::decay_t<decltype(src.g)>> x;
        under([&] {
          y.emplace(make_gf_from_fourier(src.g, m, km));
          x.emplace(make_gf_from_fourier(*y, src.g.mesh(), km));
        });
        cmp(*x, src.snap, 1e-9 * (10 + biggest(src.snap)) * src.g.mesh().size());
        sim::probe("round-trip");
      };
      (void)L;
      if (time) {
        if (!t[i].ok) make(i, d, true);
        go(t[i]);
      } else {
        if (!w[i].ok) make(i, d, false);
        go(w[i]);
      }
    }
    // decaying oscillations: known in both
    void poles(Draw &d, int form) {
      auto ts = target(d);
      long n = vol(ts), L = 2 * d.of<long>({100, 200, 500}) + d.i(0, 1);
      double top = d.u(8, 15), dt = M_PI / top;
      double tmax = dt * (L - 1) / 2;
      int np      = (int)d.i(1, 2);
      std::vector<cd> z;
      std::vector<std::vector<cd>> a(np, std::vector<cd>(n));
      for (int p = 0; p < np; ++p) {
        z.push_back({d.u(-2, 2), -d.u(30 / tmax, 45 / tmax)});
        for (auto &x : a[p]) x = d.c();
      }
      retime mt{-tmax, tmax, L};
      auto mw = make_adjoint_mesh(mt);
      G g{mt, arr<R>(ts)};
      W f{mw, arr<R>(ts)};
      auto gt = [&](long e, double t) {
        cd r = 0;
        if (t >= 0) // half of the jump at zero
          for (int p = 0; p < np; ++p) r += (t == 0 ? 0.5 : 1.0) * cd(0, -1) * a[p][e] * std::exp(cd(0, -1) * z[p] * t);
        return r;
      };
      auto fw = [&](long e, double w) {
        cd r = 0;
        for (int p = 0; p < np; ++p) r += a[p][e] / (w - z[p]);
        return r;
      };
      std::vector<cd> et, ew;
      for (auto const &x : mt)
        for (long e = 0; e < n; ++e) et.push_back(gt(e, double(x)));
      for (auto const &x : mw)
        for (long e = 0; e < n; ++e) ew.push_back(fw(e, double(x)));
      std::copy(et.begin(), et.end(), g.data().data());
      std::copy(ew.begin(), ew.end(), f.data().data());
      A km      = A::zeros(moments_shape(3, g));
      double s0 = 0, s1 = 0, s2 = 0;
      for (long e = 0; e < n; ++e) {
        double q0 = 0, q1 = 0, q2 = 0;
        for (int p = 0; p < np; ++p) {
          km.data()[n + e] += a[p][e];
          km.data()[2 * n + e] += a[p][e] * z[p];
          q0 += std::abs(a[p][e]), q1 += std::abs(a[p][e] * z[p]), q2 += std::abs(a[p][e] * z[p] * z[p]);
        }
        s0 = std::max(s0, q0), s1 = std::max(s1, q1), s2 = std::max(s2, q2);
      }
      double la = mw.delta() * std::sqrt((double)L), rest = s2 + s0 * la * la + s1 * la; // what is left of the tail
      double ends = std::exp(-la * tmax) * s0 * 20 / std::min(la, 1.0) + std::exp(-30.) * s0 * 100;
      if (form % 2) {
        std::optional<W> r;
        under([&] { r.emplace(make_gf_from_fourier(g, mw, km)); });
        cmp(*r, ew, 4 * rest / (top * top * top) + ends + 1e-9);
      } else {
        std::optional<G> r;
        under([&] { r.emplace(make_gf_from_fourier(f, mt, km)); });
        cmp(*r, et, 2 * rest / (top * top) + ends + 1e-9);
      }
      sim::probe("poles");
    }
    void block(int i, int j, Draw &d, int form) {
      if (!t[i].ok) make(i, d, true);
      auto g2 = t[i].g;
      random(g2, d);
      block_gf<retime, T> b{{"u", "v"}, {t[i].g, g2}};
      auto m = adjoint(t[i].g.mesh(), false);
      std::optional<block_gf<refreq, T>> r;
      std::vector<A> km(2, A::zeros(moments_shape(3, g2)));
      if (form % 2)
        under([&] { r.emplace(make_gf_from_fourier(b, m)); });
      else
        under([&] { r.emplace(make_gf_from_fourier(b, m, km)); });
      if (r->block_names() != std::vector<std::string>{"u", "v"}) FAIL("names", "the names of the blocks are not those of the operand");
      for (int k = 0; k < 2; ++k) cmp((*r)[k], sum(flat(b[k].data()), points(g2.mesh()), points(m), true), 1e-10 * (1 + m.size()) * biggest(t[i].snap));
    }
    void refuse(int i, Draw &d, int form) {
      if (!t[i].ok) make(i, d, true);
      if (!w[i].ok) make(i, d, false);
      bool r           = false;
      char const *what = "";
      auto mw          = adjoint(t[i].g.mesh(), false);
      auto mt          = adjoint(w[i].g.mesh(), false);
      A kt = A::zeros(moments_shape(3, t[i].g)), kw = A::zeros(moments_shape(3, w[i].g));
      bool time = form % 2;
      switch (form / 2 % 4) {
        case 0:
          what = "meshes of different sizes";
          if (time)
            r = refused([&] { auto x = make_gf_from_fourier(t[i].g, refreq{mw.w_min(), mw.w_max() + mw.delta(), (long)mw.size() + 1}); });
          else
            r = refused([&] { auto x = make_gf_from_fourier(w[i].g, retime{mt.t_min(), mt.t_max() + mt.delta(), (long)mt.size() + 1}); });
          break;
        case 1:
          what = "meshes with steps that do not fit";
          if (time)
            r = refused([&] { auto x = make_gf_from_fourier(t[i].g, refreq{mw.w_min(), mw.w_max() * (1 + 1e-6), (long)mw.size()}); });
          else
            r = refused([&] { auto x = make_gf_from_fourier(w[i].g, retime{mt.t_min(), mt.t_max() * 1.1, (long)mt.size()}); });
          break;
        case 2:
          what = "a function with a zeroth moment";
          kt.data()[0] = kw.data()[0] = 1e-4;
          if (time)
            r = refused([&] { auto x = make_gf_from_fourier(t[i].g, mw, kt); });
          else
            r = refused([&] { auto x = make_gf_from_fourier(w[i].g, mt, kw); });
          break;
        case 3: {
          what = "moments to first order only";
          W x{mw, t[i].g.target_shape()};
          x.data() = cd(1);
          auto b   = flat(x.data());
          A k2     = A::zeros(moments_shape(2, t[i].g));
          r        = refused([&] { x() = fourier(t[i].g, k2); });
          if (!same_bits(b, flat(x.data()))) FAIL("changed", "a refused transform changed its target");
        }
      }
      if (!r) FAIL("accepted", "the transform with %s was not refused", what);
      sim::probe("refused");
    }
    void run(sim::Op const &op) override {
      int i = (int)op.arg(0) & 1, j = (int)op.arg(1) & 1, form = (int)op.arg(3);
      Draw d(op.arg(2));
      auto &n = op.name;
      if (n == "make") make(i, d, form % 2);
      else if (n == "ft") {
        if (form % 2) {
          if (!t[i].ok) make(i, d, true);
          ft(t[i], w[j], d, form / 2);
        } else {
          if (!w[i].ok) make(i, d, false);
          ft(w[i], t[j], d, form / 2);
        }
      } else if (n == "trip") trip(i, d, form);
      else if (n == "poles") poles(d, form);
      else if (n == "block") block(i, j, d, form);
      else if (n == "refuse") refuse(i, d, form);
    }
  };
} // namespace tw
