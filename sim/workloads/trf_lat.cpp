// Lattice sites and momenta: random numbers, sums written out
#include "trf_common.hpp"
namespace tw {
  struct Lat : Proc {
    using R = gf<mesh::cyclat, matrix_valued>;
    using K = gf<mesh::brzone, matrix_valued>;
    Slot<R> r[2];
    Slot<K> k[2];
    struct Dim {
      int dim;
      double u[3][3];
      std::array<long, 3> n;
    };
    static Dim dims(long v) {
      static const Dim tab[] = {{1, {{1, 0, 0}, {0, 0, 0}, {0, 0, 0}}, {5, 1, 1}}, {1, {{1, 0, 0}, {0, 0, 0}, {0, 0, 0}}, {1, 1, 1}}, {2, {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {3, 4, 1}},
                                {2, {{1, 0, 0}, {0.5, 0.9, 0}, {0, 0, 1}}, {4, 2, 1}}, {3, {{1, 0.5, 0}, {0, 1, 0}, {0, 0.25, 2}}, {2, 3, 4}}, {3, {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {3, 2, 2}}, {2, {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {1, 6, 1}}};
      return tab[v % 7];
    }
    static triqs::lattice::bravais_lattice lattice(long v) {
      auto D = dims(v);
      nda::matrix<double> u(D.dim, D.dim);
      for (int i = 0; i < D.dim; ++i)
        for (int j = 0; j < D.dim; ++j) u(i, j) = D.u[i][j];
      return {u};
    }
    static mesh::cyclat rmesh(long v) { return {lattice(v), dims(v).n}; }
    static mesh::brzone kmesh(long v) { return {triqs::lattice::brillouin_zone{lattice(v)}, dims(v).n}; }
    long mv[2][2] = {}; // mesh of the objects

    // sum over one axis: v has the axis in the middle of (outer, n, inner)
    static std::vector<cd> dft(std::vector<cd> const &v, long outer, std::array<long, 3> n, long inner, bool to_k) {
      long N = n[0] * n[1] * n[2];
      std::vector<cd> o(v.size());
      auto ix = [&](long i) { return std::array<long, 3>{i / (n[1] * n[2]), (i / n[2]) % n[1], i % n[2]}; };
      for (long a = 0; a < N; ++a)
        for (long b = 0; b < N; ++b) {
          auto x = ix(a), y = ix(b);
          double ph = 0;
          for (int c = 0; c < 3; ++c) ph += double((x[c] * y[c]) % n[c]) / n[c];
          cd f = std::polar(to_k ? 1.0 : 1.0 / N, (to_k ? 2 : -2) * M_PI * ph);
          for (long q = 0; q < outer; ++q)
            for (long e = 0; e < inner; ++e) o[(q * N + a) * inner + e] += f * v[(q * N + b) * inner + e];
        }
      return o;
    }
    template <typename G> static void cmp(G const &g, std::vector<cd> const &e, double scale = 1) {
      auto v = flat(g.data());
      if (v.size() != e.size()) FAIL("shape", "the result has %ld numbers, expected %ld", (long)v.size(), (long)e.size());
      for (size_t i = 0; i < v.size(); ++i)
        if (!(std::abs(v[i] - e[i]) <= 1e-11 * scale)) FAIL("value", "element %ld is %.12g%+.12gi, expected %.12g%+.12gi", (long)i, v[i].real(), v[i].imag(), e[i].real(), e[i].imag());
    }
    template <typename G> static void random(G &g, Draw &d) {
      for (long i = 0; i < g.data().size(); ++i) g.data().data()[i] = d.c();
    }
    void make_r(int i, Draw &d) {
      long v = d.i(0, 6);
      R x{rmesh(v), {d.i(1, 2), d.i(1, 3)}};
      random(x, d);
      r[i].g = std::move(x), r[i].ok = true, mv[0][i] = v;
      r[i].note();
    }
    void make_k(int i, Draw &d) {
      long v = d.i(0, 6);
      K x{kmesh(v), {d.i(1, 2), d.i(1, 3)}};
      random(x, d);
      k[i].g = std::move(x), k[i].ok = true, mv[1][i] = v;
      k[i].note();
    }
    void check() override {
      for (int i = 0; i < 2; ++i) {
        r[i].check("a function of the sites");
        k[i].check("a function of the momenta");
      }
    }
    template <typename S, typename D, typename M> void one(S &src, D &dst, long v, long &dv, M const &mesh, bool to_k, Draw &d, int form) {
      auto e  = dft(src.snap, 1, dims(v).n, src.snap.size() / npts(src.g.mesh()), to_k);
      double scale = to_k ? npts(mesh) : 1;
      using G = decltype(dst.g);
      switch (form % 5) {
        case 0: under([&] { dst.g = make_gf_from_fourier(src.g, mesh); }); break;
        case 1: under([&] { dst.g = make_gf_from_fourier(src.g); }); break;
        case 2: under([&] { dst.g = make_gf_from_fourier(src.g()); }); break;
        case 3: {
          G x{mesh, src.g.target_shape()};
          x.data() = cd(2, 2);
          dst.g    = std::move(x);
          dst.ok   = true;
          dv       = v;
          dst.note();
          under([&] { dst.g() = fourier(src.g); });
          break;
        }
        case 4: { // parts of larger ones
          auto sh = src.g.target_shape();
          decltype(src.g) big{src.g.mesh(), {sh[0] + 1, sh[1] + 2}};
          G out{mesh, {sh[0] + 2, sh[1] + 1}};
          big.data() = cd(9, 9);
          out.data() = cd(4);
          auto vs = slice_target(big, nda::range(1, 1 + sh[0]), nda::range(1, 1 + sh[1]));
          vs      = src.g;
          auto vo = slice_target(out, nda::range(2, 2 + sh[0]), nda::range(0, sh[1]));
          under([&] { vo = fourier(vs); });
          long c = 0;
          auto all = flat(out.data());
          for (long p = 0; p < npts(mesh); ++p)
            for (long a = 0; a < sh[0] + 2; ++a)
              for (long b = 0; b < sh[1] + 1; ++b, ++c)
                if ((a < 2 || b >= sh[1]) && all[c] != cd(4)) FAIL("outside", "an element outside of the view that was assigned to changed");
          G x{mesh, sh};
          x()   = vo;
          dst.g = std::move(x);
        }
      }
      dst.ok = true, dv = v;
      if (!(dst.g.mesh() == mesh)) FAIL("mesh", "the mesh of the result is another one");
      cmp(dst.g, e, scale);
      dst.note();
      sim::probe("transformed");
    }
    // products with frequencies, in both orders
    template <int N> void product(Draw &d, int form) {
      long v = d.i(0, 6), np = npts(kmesh(v));
      imfreq mw{3, d.p(0.5) ? Fermion : Boson, d.i(1, 2)};
      long nw = npts(mw);
      std::array<long, 2> ts{d.i(1, 2), d.i(1, 2)};
      auto build = [&](auto const &m) {
        using M = std::decay_t<decltype(m)>;
        if constexpr (N == 0)
          return gf<mesh::prod<M, imfreq>, matrix_valued>{{m, mw}, ts};
        else
          return gf<mesh::prod<imfreq, M>, matrix_valued>{{mw, m}, ts};
      };
      auto gr = build(rmesh(v));
      auto gk = build(kmesh(v));
      random(gr, d);
      random(gk, d);
      auto br = flat(gr.data()), bk = flat(gk.data());
      long outer = N == 0 ? 1 : nw, inner = (N == 0 ? nw : 1) * ts[0] * ts[1];
      bool to_k = form % 2;
      sim::probe("products");
      if (form / 2 % 2 == 0) {
        if (to_k) {
          std::optional<decltype(gk)> x;
          under([&] { x.emplace(make_gf_from_fourier<N>(gr, kmesh(v))); });
          cmp(*x, dft(br, outer, dims(v).n, inner, true), np);
        } else {
          std::optional<decltype(gr)> x;
          under([&] { x.emplace(make_gf_from_fourier<N>(gk(), rmesh(v))); });
          cmp(*x, dft(bk, outer, dims(v).n, inner, false));
        }
        if (!same_bits(br, flat(gr.data())) || !same_bits(bk, flat(gk.data()))) FAIL("changed", "an operand changed");
      } else {
        if (to_k) {
          under([&] { gk() = fourier<N>(gr); });
          cmp(gk, dft(br, outer, dims(v).n, inner, true), np);
          if (!same_bits(br, flat(gr.data()))) FAIL("changed", "the operand changed");
        } else {
          under([&] { gr() = fourier<N>(gk); });
          cmp(gr, dft(bk, outer, dims(v).n, inner, false));
          if (!same_bits(bk, flat(gk.data()))) FAIL("changed", "the operand changed");
        }
      }
    }
    // three variables, two or one of them transformed
    void multi(Draw &d, int form) {
      long v = d.i(0, 6), u = d.i(0, 6), np = npts(rmesh(v)), nq = npts(rmesh(u));
      long nf = 2;
      mesh::retime mt{0, 1, nf};
      if (form % 2) {
        gf<mesh::prod<mesh::cyclat, mesh::retime, mesh::brzone>, scalar_valued> g{{rmesh(v), mt, kmesh(u)}};
        random(g, d);
        auto b = flat(g.data());
        auto e = dft(dft(b, 1, dims(v).n, nf * nq, true), np * nf, dims(u).n, 1, false);
        std::optional<gf<mesh::prod<mesh::brzone, mesh::retime, mesh::cyclat>, scalar_valued>> x;
        under([&] { x.emplace(make_gf_from_fourier<0, 2>(g, kmesh(v), rmesh(u))); });
        cmp(*x, e, np);
        if (!same_bits(b, flat(g.data()))) FAIL("changed", "the operand changed");
      } else {
        gf<mesh::prod<mesh::brzone, mesh::retime, mesh::cyclat>, scalar_valued> g{{kmesh(v), mt, rmesh(u)}};
        random(g, d);
        auto b = flat(g.data());
        auto e = dft(b, np * nf, dims(u).n, 1, true);
        std::optional<gf<mesh::prod<mesh::brzone, mesh::retime, mesh::brzone>, scalar_valued>> x;
        under([&] { x.emplace(make_gf_from_fourier<2>(g, kmesh(u))); });
        cmp(*x, e, nq);
        if (form / 2 % 2) {
          std::optional<gf<mesh::prod<mesh::cyclat, mesh::retime, mesh::brzone>, scalar_valued>> y;
          under([&] { y.emplace(make_gf_from_multi_fourier<0, 2>(gf_const_view{g})); });
          cmp(*y, dft(e, 1, dims(v).n, nf * nq, false), nq);
        }
        if (!same_bits(b, flat(g.data()))) FAIL("changed", "the operand changed");
      }
      sim::probe("products");
    }
    void refuse(int i, Draw &d, int form) {
      if (!r[i].ok) make_r(i, d);
      if (!k[i].ok) make_k(i, d);
      // momenta that are not those of the sites
      bool to_k = form % 2;
      long v = mv[to_k ? 0 : 1][i], u = v;
      while (dims(u).n == dims(v).n) u = d.i(0, 6);
      bool ok;
      if (form / 2 % 2) {
        if (to_k)
          ok = refused([&] { auto x = make_gf_from_fourier(r[i].g, kmesh(u)); });
        else
          ok = refused([&] { auto x = make_gf_from_fourier(k[i].g, rmesh(u)); });
      } else {
        if (to_k) {
          K x{kmesh(u), r[i].g.target_shape()};
          x.data() = cd(1);
          auto b   = flat(x.data());
          ok       = refused([&] { x() = fourier(r[i].g); });
          if (!same_bits(b, flat(x.data()))) FAIL("changed", "a refused transform changed its target");
        } else {
          R x{rmesh(u), k[i].g.target_shape()};
          x.data() = cd(1);
          auto b   = flat(x.data());
          ok       = refused([&] { x() = fourier(k[i].g); });
          if (!same_bits(b, flat(x.data()))) FAIL("changed", "a refused transform changed its target");
        }
      }
      if (!ok) FAIL("accepted", "a transform between a lattice and a Brillouin zone of other dimensions was not refused");
      sim::probe("refused");
    }
    void run(sim::Op const &op) override {
      int i = (int)op.arg(0) & 1, j = (int)op.arg(1) & 1, form = (int)op.arg(3);
      Draw d(op.arg(2));
      auto &n = op.name;
      if (n == "make") {
        if (form % 2)
          make_r(i, d);
        else
          make_k(i, d);
      } else if (n == "ft") {
        if (form % 2) {
          if (!r[i].ok) make_r(i, d);
          one(r[i], k[j], mv[0][i], mv[1][j], kmesh(mv[0][i]), true, d, form / 2);
        } else {
          if (!k[i].ok) make_k(i, d);
          one(k[i], r[j], mv[1][i], mv[0][j], rmesh(mv[1][i]), false, d, form / 2);
        }
      } else if (n == "prod") {
        if (d.p(0.5))
          product<0>(d, form);
        else
          product<1>(d, form);
      } else if (n == "multi") multi(d, form);
      else if (n == "refuse") refuse(i, d, form);
    }
  };
  std::unique_ptr<Proc> make_lat() { return std::make_unique<Lat>(); }
} // namespace tw
