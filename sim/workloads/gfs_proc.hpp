// A simulated process that works with three objects of type G: a gf, a block_gf or a block2_gf.
#pragma once
#include "gfs_eval.hpp"

namespace gw {

  template <typename G, int A> struct leaf_of {
    using type = typename G::g_t;
  };
  template <typename G> struct leaf_of<G, 0> {
    using type = G;
  };
  template <typename G> constexpr int arity_of_blocks() {
    if constexpr (is_block_gf_v<G>)
      return G::arity;
    else
      return 0;
  }

  template <typename G> struct Proc {
    static constexpr int A = arity_of_blocks<G>();
    using L                = typename leaf_of<G, A>::type;
    using M                = typename L::mesh_t;
    using T                = typename L::target_t;
    using S                = typename L::scalar_t;
    using X                = MO<M>;
    using data_t           = typename L::data_t;
    static constexpr int R      = T::rank;
    static constexpr bool is_re = std::is_same_v<S, double>;
    static constexpr bool mat   = T::is_matrix;
    static constexpr int arity  = L::arity;

    mpi::communicator world;
    G o[3];
    Side &me() { return W().now[sim::rank()]; }
    Obj &m(int s) { return me().o[s]; }

    // ------------------------------------------------------------- small things
    static long vol(std::vector<long> const &v) {
      long n = 1;
      for (long x : v) n *= x;
      return n;
    }
    static std::vector<long> full(Leaf const &l) {
      auto s = mesh_shape<M>(l.mv);
      s.insert(s.end(), l.ts.begin(), l.ts.end());
      return s;
    }
    template <size_t N> static std::array<long, N> arr(std::vector<long> const &v) {
      std::array<long, N> r;
      for (size_t i = 0; i < N; ++i) r[i] = v.at(i);
      return r;
    }
    static S num(cd x) {
      if constexpr (is_re)
        return x.real();
      else
        return x;
    }
    template <typename D> static long pos(int mv, D const &di) { // where a mesh point is in the data
      if constexpr (mesh::is_product<M>)
        return X::flat(di, X::sizes(mv));
      else
        return (long)di;
    }
    // a value of the target
    template <typename P> static void set_target(P &&p, cd const *x) {
      if constexpr (R == 0)
        p = num(*x);
      else {
        auto y = make_regular(p);
        for (long i = 0; i < y.size(); ++i) y.data()[i] = num(x[i]);
        p = y;
      }
    }
    template <typename P> static void check_target(P const &p, cd const *x, long n, char const *what, long point) {
      if constexpr (R == 0) {
        if (!(cd(p) == *x)) FAIL("content", "%s: at mesh point %ld the value is (%g,%g), expected (%g,%g)", what, point, cd(p).real(), cd(p).imag(), x->real(), x->imag());
      } else {
        auto y = make_regular(p);
        if (y.size() != n) FAIL("content", "%s: at mesh point %ld there are %ld values, expected %ld", what, point, (long)y.size(), n);
        for (long i = 0; i < n; ++i)
          if (!(cd(y.data()[i]) == x[i]))
            FAIL("content", "%s: at mesh point %ld the element %ld is (%g,%g), expected (%g,%g)", what, point, i, cd(y.data()[i]).real(), cd(y.data()[i]).imag(), x[i].real(), x[i].imag());
      }
    }
    static void content(Leaf &l, uint64_t code) {
      sim::Rng r(code);
      l.d.resize(vol(full(l)));
      for (auto &x : l.d) {
        double a = (double)r.range(-6, 6);
        x        = is_re ? cd(a) : cd(a, (double)r.range(-4, 4));
      }
      l.dirty = false;
    }
    static data_t array_of(Leaf const &l) {
      data_t a(arr<L::data_rank>(full(l)));
      for (size_t i = 0; i < l.d.size(); ++i) a.data()[i] = num(l.d[i]);
      return a;
    }
    static L leaf_of_model(Leaf const &l) {
      L g{X::build(l.mv), array_of(l)};
      if constexpr (X::tails) set_tail(g.mesh(), l.tp);
      return g;
    }
    template <typename Mesh> static void set_tail(Mesh const &ms, int tp) {
      if (tp) ms.set_tail_fit_parameters(tails[tp].frac, tails[tp].nmax, tails[tp].order);
    }
    template <typename Y> static decltype(auto) leaf(Y &&g, int i) {
      if constexpr (A == 0)
        return (g);
      else if constexpr (A == 1)
        return (g.data()[i]);
      else {
        int n2 = (int)g.data()[0].size();
        return (g.data()[i / n2][i % n2]);
      }
    }

    // ------------------------------------------------------------- comparison with the model
    template <typename Y> static void check_leaf(Y const &g, Leaf const &l, char const *what) {
      X::check(g.mesh(), l.mv);
      if (l.dirty) return;
      auto sh = full(l);
      auto d  = make_regular(g.data());
      for (size_t i = 0; i < sh.size(); ++i)
        if (d.shape()[i] != sh[i]) FAIL("shape", "%s: the extent %zu of the data is %ld, expected %ld", what, i, (long)d.shape()[i], sh[i]);
      auto ts = g.target_shape();
      for (int i = 0; i < R; ++i)
        if (ts[i] != l.ts[i]) FAIL("shape", "%s: the extent %d of the target is %ld, expected %ld", what, i, (long)ts[i], l.ts[i]);
      for (size_t i = 0; i < l.d.size(); ++i)
        if (!(cd(d.data()[i]) == l.d[i]))
          FAIL("content", "%s: the number %zu of %zu is (%g,%g), expected (%g,%g)", what, i, l.d.size(), cd(d.data()[i]).real(), cd(d.data()[i]).imag(), l.d[i].real(), l.d[i].imag());
      long n = vol(l.ts), k = 0;
      for (auto const &w : g.mesh()) {
        long p = pos(l.mv, w.data_index());
        check_target(g[w], &l.d[p * n], n, what, p);
        if constexpr (X::index_is_key) check_target(g[w.index()], &l.d[p * n], n, what, p);
        ++k;
      }
      same(k * n, (long)l.d.size(), "the number of values");
    }
    template <typename Y> static void check(Y const &g, Obj const &ob, char const *what) {
      if (ob.junk) return;
      if constexpr (A == 0) {
        check_leaf(g, ob.l.at(0), what);
      } else {
        if constexpr (A == 1) {
          if (g.size() != (long)ob.n1.size()) FAIL("blocks", "%s: there are %d blocks, expected %zu", what, (int)g.size(), ob.n1.size());
          if (g.block_names() != ob.n1) FAIL("blocks", "%s: the names of the blocks are not right", what);
          long k = 0;
          for (auto const &x : g) check_leaf(x, ob.l.at(k++), what);
        } else {
          if (g.size1() != (long)ob.n1.size() || (ob.n1.size() && g.size2() != (long)ob.n2.size()))
            FAIL("blocks", "%s: there are %d x %d blocks, expected %zu x %zu", what, (int)g.size1(), (int)g.size2(), ob.n1.size(), ob.n2.size());
          if (g.block_names().size() != 2 || g.block_names()[0] != ob.n1 || g.block_names()[1] != ob.n2) FAIL("blocks", "%s: the names of the blocks are not right", what);
          long k = 0;
          for (auto const &x : g) check_leaf(x, ob.l.at(k++), what);
        }
        for (size_t i = 0; i < ob.l.size(); ++i) check_leaf(leaf(g, (int)i), ob.l[i], what);
      }
    }
    void check_all(char const *what) {
      for (int s = 0; s < 3; ++s) check(o[s], m(s), gw::str("%s, object %d", what, s).c_str());
    }

    // ------------------------------------------------------------- objects from a number
    static std::vector<std::string> names(int kind, int n) {
      static const std::vector<std::string> N[4] = {{"0", "1", "2"}, {"up", "dn", "x"}, {"b_0", "b_1", "b_2"}, {"x", "dn", "up"}};
      return {N[kind].begin(), N[kind].begin() + n};
    }
    Leaf leaf_plan(sim::Rng &r) {
      Leaf l;
      l.mv = r.chance(0.6) ? (int)(sim::cfg("mv") % X::nvar) : (int)r.range(0, X::nvar - 1);
      bool common = r.chance(0.65);
      if (R == 2 && mat) {
        long n = r.range(1, 3);
        l.ts   = common ? std::vector<long>{2, 2} : r.chance(0.7) ? std::vector<long>{n, n} : std::vector<long>{n, r.range(1, 3)};
      } else
        for (int i = 0; i < R; ++i) l.ts.push_back(common ? 1 + i % 2 : r.range(1, 2));
      return l;
    }
    Obj obj_plan(uint64_t code, uint64_t salt) {
      sim::Rng r(sim::mix(code, 1));
      Obj b;
      b.junk = false;
      int n1 = A == 0 ? 1 : r.chance(0.6) ? 2 : (int)r.range(1, 3), n2 = A < 2 ? 1 : r.chance(0.6) ? 2 : (int)r.range(1, 3);
      bool uniform = r.chance(0.7);
      if (A > 0) b.n1 = names(r.chance(0.5) ? 0 : (int)r.range(0, 3), n1);
      if (A > 1) b.n2 = names(r.chance(0.5) ? 0 : (int)r.range(0, 3), n2);
      for (int i = 0; i < n1 * n2; ++i) {
        b.l.push_back(i && uniform ? b.l[0] : leaf_plan(r));
        content(b.l.back(), sim::mix(sim::mix(code, salt), 17 + i));
      }
      return b;
    }
    static std::vector<std::vector<L>> rows(Obj const &b) {
      std::vector<std::vector<L>> v(b.n1.size());
      for (size_t i = 0; i < b.l.size(); ++i) v[i / b.n2.size()].push_back(leaf_of_model(b.l[i]));
      return v;
    }
    static std::vector<L> list(Obj const &b) {
      std::vector<L> v;
      for (auto const &l : b.l) v.push_back(leaf_of_model(l));
      return v;
    }
    static std::vector<std::string> numbered(size_t n) { return names(0, (int)n); }
    // (re)makes an object in one of the ways there are
    void make(int s, uint64_t code, uint64_t salt = 0) {
      Obj b   = obj_plan(code, salt);
      int how = (int)(sim::mix(code, 77) % 8);
      m(s).junk = true;
      bool refill = false;
      if constexpr (A == 0) {
        Leaf const &l = b.l[0];
        if (how < 3) {
          o[s]   = G{X::build(l.mv), arr<R>(l.ts)};
          refill = true;
        } else if (how < 5)
          o[s] = G{X::build(l.mv), array_of(l)};
        else if (how < 7) {
          G g{X::build(l.mv), arr<R>(l.ts)};
          g.data() = array_of(l);
          o[s]     = g;
        } else {
          G g{X::build(l.mv), arr<R>(l.ts)};
          refill = true;
          o[s]   = std::move(g);
        }
      } else if constexpr (A == 1) {
        auto all_like_first = [&] {
          for (auto &l : b.l) l = b.l[0];
        };
        std::vector<int> sizes;
        auto v        = list(b);
        int n         = (int)b.l.size();
        bool square   = true;
        for (auto &l : b.l) {
          square = square && l.mv == b.l[0].mv && (R == 0 || (R == 2 && l.ts[0] == l.ts[1]));
          sizes.push_back(R == 0 ? 1 : (int)l.ts[0]);
        }
        if ((how == 5 || how == 6) && (!square || (R != 0 && R != 2))) how = 0;
        switch (how) {
          case 1: o[s] = G{v}; b.n1 = numbered(n); break;
          case 2: o[s] = G{n, v[0]}; b.n1 = numbered(n); all_like_first(); break;
          case 3: o[s] = G{b.n1, v[0]}; all_like_first(); break;
          case 4: o[s] = make_block_gf(b.n1, v); break;
          case 5:
            if constexpr (R == 0 || R == 2) {
              gf_struct_t st;
              for (int i = 0; i < n; ++i) st.emplace_back(b.n1[i], sizes[i]);
              o[s]   = G{X::build(b.l[0].mv), st};
              refill = true;
            }
            break;
          case 6:
            if constexpr (R == 0 || R == 2) {
              o[s]   = G{X::build(b.l[0].mv), sizes};
              b.n1   = numbered(n);
              refill = true;
            }
            break;
          case 7:
            o[s] = sim::mix(code, 5) % 2 ? make_block_gf(v) : make_block_gf(n, v[0]);
            b.n1 = numbered(n);
            if (sim::mix(code, 5) % 2 == 0) all_like_first();
            break;
          default: o[s] = G{b.n1, v};
        }
      } else {
        auto all_like_first = [&] {
          for (auto &l : b.l) l = b.l[0];
          b.n1 = numbered(b.n1.size());
          b.n2 = numbered(b.n2.size());
        };
        auto v = rows(b);
        int n1 = (int)b.n1.size(), n2 = (int)b.n2.size();
        switch (how) {
          case 1:
          case 2: o[s] = make_block2_gf(b.n1, b.n2, v); break;
          case 3: o[s] = G{n1, n2, v[0][0]}; all_like_first(); break;
          case 4: o[s] = make_block2_gf(n1, n2, v[0][0]); all_like_first(); break;
          case 5:
            o[s] = G{v};
            b.n1 = numbered(n1);
            b.n2 = numbered(n2);
            break;
          default: o[s] = G{{b.n1, b.n2}, v};
        }
      }
      if (refill)
        for (size_t i = 0; i < b.l.size(); ++i) leaf(o[s], (int)i).data() = array_of(b.l[i]);
      m(s) = b;
    }
    // an object whose numbers are small enough that arithmetic is exact
    void usable(int s, uint64_t code) {
      if (m(s).junk) return make(s, code);
      for (size_t i = 0; i < m(s).l.size(); ++i) {
        auto &l  = m(s).l[i];
        bool bad = l.dirty;
        auto ok  = [](double x) { return std::abs(x) <= 65536 && x * 64 == std::floor(x * 64); };
        for (auto &x : l.d) bad = bad || !ok(x.real()) || !ok(x.imag());
        if (!bad) continue;
        Leaf x = l;
        content(x, sim::mix(code, 1000 + i));
        leaf(o[s], (int)i).data() = array_of(x);
        l = x;
      }
    }
    static bool same_blocks(Obj const &a, Obj const &b) { return a.l.size() == b.l.size() && a.n1.size() == b.n1.size(); }
    static bool same_structure(Obj const &a, Obj const &b) {
      if (!same_blocks(a, b)) return false;
      for (size_t i = 0; i < a.l.size(); ++i)
        if (a.l[i].mv != b.l[i].mv || a.l[i].ts != b.l[i].ts) return false;
      return true;
    }

    // ------------------------------------------------------------- operations: content
    void op_fill(int s, int how, uint64_t code) {
      usable(s, code);
      for (size_t i = 0; i < m(s).l.size(); ++i) {
        Leaf &l  = m(s).l[i];
        auto &&g = leaf(o[s], (int)i);
        long n   = vol(l.ts);
        Leaf x   = l;
        content(x, sim::mix(code, i));
        switch (how) {
          case 0:
            for (auto w : g.mesh()) set_target(g[w], &x.d[pos(l.mv, w.data_index()) * n]);
            break;
          case 1: {
            auto v = g();
            for (auto w : v.mesh()) set_target(v[w], &x.d[pos(l.mv, w.data_index()) * n]);
            break;
          }
          case 2:
            if constexpr (X::index_is_key) {
              for (auto w : g.mesh()) set_target(g[w.index()], &x.d[pos(l.mv, w.data_index()) * n]);
              break;
            }
            [[fallthrough]];
          case 3: g.data() = array_of(x); break;
          case 4: { // a few points only
            long np = X::npts(l.mv);
            std::set<long> at;
            sim::Rng r(code);
            for (int k = 0; k < 3; ++k) at.insert((long)r.below(np));
            for (auto w : g.mesh()) {
              long p = pos(l.mv, w.data_index());
              if (at.count(p))
                set_target(g[w], &x.d[p * n]);
              else
                std::copy(&l.d[p * n], &l.d[p * n] + n, &x.d[p * n]);
            }
            break;
          }
          default: { // all the same
            for (auto &y : x.d) y = x.d[0];
            if constexpr (R == 0 || !mat)
              g() = num(x.d[0]);
            else
              g.data()() = num(x.d[0]);
          }
        }
        l = x;
      }
    }

    void op_copy(int d, int s, int how, uint64_t code) {
      usable(s, code);
      Obj b     = m(s);
      m(d).junk = true;
      switch (how) {
        case 0: o[d] = std::as_const(o[s]); break;
        case 1: o[d] = G{o[s]}; break;
        case 2: {
          G t{std::as_const(o[s])};
          o[d] = std::move(t);
          break;
        }
        case 3: o[d] = o[s](); break;
        case 4: o[d] = G{std::as_const(o[s])()}; break;
        case 5: o[d] = o[s]; break;
        case 6: {
          auto v = o[s]();
          G t{v};
          o[d] = t;
          break;
        }
        default: o[d] = std::as_const(o[s])();
      }
      m(d) = b;
    }
    void op_move(int d, int s, int how, uint64_t code) {
      if (d == s) return;
      usable(s, code);
      Obj b     = m(s);
      m(s).junk = true;
      m(d).junk = true;
      if (how == 0)
        o[d] = std::move(o[s]);
      else if (how == 1) {
        G t{std::move(o[s])};
        o[d] = t;
      } else {
        std::vector<G> v;
        v.push_back(std::move(o[s]));
        v.resize(3);
        o[d] = std::move(v[0]);
      }
      m(d) = b;
    }
    void op_swap(int d, int s, uint64_t code) {
      if (d == s) return;
      usable(s, code);
      usable(d, code);
      using std::swap;
      swap(o[d], o[s]);
      std::swap(m(d), m(s));
    }

    // a() = b
    void op_vassign(int d, int s, int how, uint64_t code) {
      usable(s, code);
      usable(d, code);
      Obj b = m(s), &a = m(d);
      bool blocks = same_blocks(a, b), refuse = !blocks;
      if (!blocks && A == 2 && a.l.size() == b.l.size()) return; // the same number of blocks, arranged otherwise
      if (blocks) {
        for (size_t i = 0; i < a.l.size(); ++i) {
          if (a.l[i].mv != b.l[i].mv) {
            refuse = true;
            break;
          }
          if (a.l[i].ts != b.l[i].ts) return;
        }
      }
      bool threw = false;
      try {
        switch (how) {
          case 0: o[d]() = o[s]; break;
          case 1: o[d]() = o[s](); break;
          case 2: o[d]() = std::as_const(o[s])(); break;
          default: {
            auto v = o[d]();
            auto w = o[s]();
            v      = w;
          }
        }
      } catch (triqs::runtime_error const &) { threw = true; }
      if (threw && !refuse) FAIL("refused", "an assignment to a view of an object with the same mesh throws");
      if (!threw && refuse) FAIL("not-refused", "an assignment to a view of an object with %s is accepted", blocks ? "another mesh" : "another number of blocks");
      if (refuse) sim::probe("assignment to a view refused");
      if (blocks)
        for (size_t i = 0; i < a.l.size() && a.l[i].mv == b.l[i].mv; ++i) {
          a.l[i].d     = b.l[i].d;
          a.l[i].dirty = b.l[i].dirty;
        }
    }
    void op_scalar(int d, uint64_t code) {
      usable(d, code);
      Obj &a   = m(d);
      double x = (double)sim::Rng(code).range(-9, 9);
      for (auto &l : a.l)
        if (mat && l.ts[0] != l.ts[1]) return;
      o[d]() = x;
      for (auto &l : a.l) {
        long n = vol(l.ts);
        for (size_t i = 0; i < l.d.size(); ++i) {
          long k = (long)i % n;
          l.d[i] = mat && k / l.ts[1] != k % l.ts[1] ? 0. : x;
        }
      }
    }

    // ------------------------------------------------------------- expressions
    static std::vector<cd> product(Leaf const &b, Leaf const &c) {
      std::vector<cd> r(b.d.size());
      if constexpr (mat) {
        long n = b.ts[0];
        for (size_t p = 0; p < b.d.size(); p += n * n)
          for (long i = 0; i < n; ++i)
            for (long j = 0; j < n; ++j) {
              cd x = 0;
              for (long k = 0; k < n; ++k) x += b.d[p + i * n + k] * c.d[p + k * n + j];
              r[p + i * n + j] = x;
            }
      } else
        for (size_t i = 0; i < r.size(); ++i) r[i] = b.d[i] * c.d[i];
      return r;
    }
    enum Verdict { fine, refused, undefined };
    enum { plus, minus, times, two_times, times_two, half, neg, lincomb, deep, NFORM };
    static bool binary(int f) { return f == plus || f == minus || f == times || f == lincomb || f == deep; }
    static Verdict eval(int f, Leaf const &b, Leaf const &c, Leaf &r, bool &shape) {
      r     = b;
      shape = true;
      auto each = [&](auto fn) {
        for (size_t i = 0; i < r.d.size(); ++i) r.d[i] = fn(b.d[i], binary(f) ? c.d[i] : cd{0});
      };
      if (binary(f)) {
        if constexpr (mesh::is_product<M>) {
          if (X::foreign(f == times, b.mv, c.mv)) return undefined;
        }
        auto x = X::combine(f == times, b.mv, c.mv);
        if (!x) return refused;
        if (b.ts != c.ts) {
          shape = false;
          return refused;
        }
        if (mat && f == times && b.ts[0] != b.ts[1]) return undefined;
        r.mv = *x;
      }
      switch (f) {
        case plus: each([](cd x, cd y) { return x + y; }); break;
        case minus: each([](cd x, cd y) { return x - y; }); break;
        case times: r.d = product(b, c); break;
        case two_times:
        case times_two: each([](cd x, cd) { return 2. * x; }); break;
        case half: each([](cd x, cd) { return x / 2.; }); break;
        case neg: each([](cd x, cd) { return -x; }); break;
        case lincomb: each([](cd x, cd y) { return x + 2. * y; }); break;
        case deep: each([](cd x, cd y) { return 3. * (x - y) + x; }); break;
      }
      return fine;
    }
    template <typename F> static void with_expr(int f, G const &b, G const &c, F &&fn) {
      switch (f) {
        case plus: fn(b + c); break;
        case minus: fn(b - c); break;
        case times: fn(b * c); break;
        case two_times: fn(2. * b); break;
        case times_two: fn(b * 2.); break;
        case half: fn(b / 2.); break;
        case neg:
          if constexpr (A < 2) fn(-b);
          break;
        case lincomb: fn(b + 2. * c); break;
        case deep: fn(3. * (b - c) + b); break;
      }
    }
    // d = f(b, c): 0 assigned, 1 constructed, 2 into a view, 3 kept and assigned, 4 compound (c to d = b), 5 compound on a view
    void op_expr(int d, int ib, int ic, int f, int how, uint64_t code) {
      if (A == 2 && f == neg) f = two_times;
      if (how >= 4) {
        ib = d;
        if (f == lincomb || f == deep || f == neg || f == two_times) f = (int)(code % 3);
      }
      usable(ib, code);
      usable(ic, code + 1);
      bool view = how == 2 || how == 5;
      if (view) usable(d, code + 2);
      Obj b = m(ib), c = m(ic), r = b;
      if (binary(f) && !same_blocks(b, c)) return;
      if (view && !same_blocks(m(d), b)) {
        if (A == 2 && m(d).l.size() == b.l.size()) return;
        bool threw = false;
        try {
          with_expr(f, o[ib], o[ic], [&](auto &&e) { o[d]() = e; });
        } catch (triqs::runtime_error const &) { threw = true; }
        if (!threw) FAIL("not-refused", "an expression with %zu blocks is assigned to a view of %zu blocks", b.l.size(), m(d).l.size());
        return;
      }
      bool refuse = false;
      size_t good = 0;
      for (size_t i = 0; i < b.l.size(); ++i) {
        bool shape = true;
        auto v     = eval(f, b.l[i], binary(f) ? c.l[i] : b.l[i], r.l[i], shape);
        if (v == undefined) return;
        if (v == refused && view && !shape) return;
        if (v == fine && view) {
          if (r.l[i].mv != m(d).l[i].mv)
            v = refused;
          else if (r.l[i].ts != m(d).l[i].ts)
            return;
        }
        if (v == refused) {
          refuse = true;
          break;
        }
        ++good;
      }
      for (size_t i = good + 1; i < b.l.size(); ++i) { // what lies behind must not be undefined, the order is not ours
        Leaf x;
        bool shape;
        if (eval(f, b.l[i], binary(f) ? c.l[i] : b.l[i], x, shape) == undefined) return;
      }
      Obj before = m(d);
      bool threw = false;
      try {
        if (how >= 4) {
          auto go = [&](auto &&target) {
            switch (f) {
              case plus: target += o[ic]; break;
              case minus: target -= o[ic]; break;
              case times: target *= o[ic]; break;
              case times_two: target *= 2.; break;
              default: target /= 2.;
            }
          };
          if (how == 4)
            go(o[d]);
          else
            go(o[d]());
        } else
          with_expr(f, o[ib], o[ic], [&](auto &&e) {
            switch (how) {
              case 0: o[d] = std::forward<decltype(e)>(e); break;
              case 1: {
                if constexpr (A == 0 || requires { std::decay_t<decltype(e)>::arity; }) {
                  G t{e};
                  o[d] = std::move(t);
                } else
                  o[d] = e;
                break;
              }
              case 2: o[d]() = e; break;
              default: {
                auto const x = std::as_const(e);
                o[d]         = x;
              }
            }
          });
      } catch (triqs::runtime_error const &) { threw = true; }
      if (threw && !refuse) FAIL("refused", "an expression of objects with equal meshes throws");
      if (!threw && refuse) FAIL("not-refused", "an expression of objects with different meshes or shapes is accepted");
      if (refuse) sim::probe("expression refused");
      if (view) {
        for (size_t i = 0; i < good; ++i) m(d).l[i].d = r.l[i].d;
      } else if (!refuse)
        m(d) = r;
      else if (A > 0 && how != 1)
        m(d).junk = true;
      if (!refuse) sim::probe("expression evaluated");
    }

    // ------------------------------------------------------------- views, slices, comparison
    void op_cmp(int ib, int ic, uint64_t code) {
      usable(ib, code);
      usable(ic, code + 1);
      for (auto &b : m(ib).l)
        for (auto &c : m(ic).l) {
          auto const &x = leaf(o[ib], (int)(&b - &m(ib).l[0])).mesh();
          auto const &y = leaf(o[ic], (int)(&c - &m(ic).l[0])).mesh();
          bool eq       = b.mv == c.mv;
          if ((x == y) != eq || (x != y) == eq) FAIL("mesh", "meshes %d and %d compare %s", b.mv, c.mv, eq ? "different" : "equal");
        }
    }
    void poke(int s, size_t i, uint64_t code, auto &&g) { // writes one point through g, which shows leaf i of object s
      Leaf &l = m(s).l[i];
      long n = vol(l.ts), at = (long)(sim::mix(code, 3) % X::npts(l.mv));
      Leaf x = l;
      content(x, sim::mix(code, 4));
      for (auto w : g.mesh())
        if (pos(l.mv, w.data_index()) == at) set_target(g[w], &x.d[at * n]);
      std::copy(&x.d[at * n], &x.d[at * n] + n, &l.d[at * n]);
    }
    void op_view(int d, int s, uint64_t code) {
      usable(d, code);
      usable(s, code + 1);
      auto v         = o[d]();
      auto cv        = std::as_const(o[d])();
      size_t i       = sim::mix(code, 9) % m(d).l.size();
      poke(d, i, code, leaf(v, (int)i));
      check(cv, m(d), "a constant view");
      poke(d, i, code + 1, leaf(o[d], (int)i));
      check(v, m(d), "a view");
      if (sim::mix(code, 8) % 2) {
        auto old = v; // a view of the same object
        v.rebind(o[s]());
        check(v, m(s), "a view that was bound to another object");
        size_t j = sim::mix(code, 10) % m(s).l.size();
        poke(s, j, code + 2, leaf(v, (int)j));
        check(old, m(d), "a view whose copy was bound to another object");
        cv.rebind(std::as_const(o[s])());
        check(cv, m(s), "a constant view that was bound to another object");
      }
      sim::probe("written through a view");
    }
    void op_slice(int s, uint64_t code) {
      usable(s, code);
      size_t i = sim::mix(code, 9) % m(s).l.size();
      auto &&g = leaf(o[s], (int)i);
      Leaf &l  = m(s).l[i];
      long n   = vol(l.ts);
      if constexpr (arity == 2) {
        auto sz   = X::sizes(l.mv);
        auto m0 = std::get<0>(g.mesh()), m1 = std::get<1>(g.mesh());
        using M0  = std::decay_t<decltype(m0)>;
        using M1  = std::decay_t<decltype(m1)>;
        bool first = sim::mix(code, 2) % 2;
        long k     = (long)(sim::mix(code, 3) % sz[first ? 0 : 1]);
        auto work  = [&](auto v, auto const &cv, int mv, long step, long off, auto tag) {
          using MM = typename decltype(tag)::type;
          MO<MM>::check(v.mesh(), mv);
          MO<MM>::check(cv.mesh(), mv);
          for (auto w : v.mesh()) check_target(v[w], &l.d[(off + w.data_index() * step) * n], n, "a slice", w.data_index());
          for (auto w : cv.mesh()) check_target(cv[w], &l.d[(off + w.data_index() * step) * n], n, "a constant slice", w.data_index());
          long at = (long)(sim::mix(code, 5) % MO<MM>::npts(mv));
          Leaf x  = l;
          content(x, code);
          for (auto w : v.mesh())
            if (w.data_index() == at) set_target(v[w], &x.d[(off + at * step) * n]);
          std::copy(&x.d[(off + at * step) * n], &x.d[(off + at * step) * n] + n, &l.d[(off + at * step) * n]);
        };
        if (first) {
          auto p = m0[k];
          work(g[p, nda::range::all], std::as_const(g)[p, nda::range::all], X::template comp<1>(l.mv), 1, k * sz[1], std::type_identity<M1>{});
        } else {
          auto p = m1[k];
          work(g[nda::range::all, p], std::as_const(g)[nda::range::all, p], X::template comp<0>(l.mv), sz[1], k, std::type_identity<M0>{});
        }
        sim::probe("slices of a product");
      } else if constexpr (mat) {
        long a = (long)(sim::mix(code, 2) % l.ts[0]), b = (long)(sim::mix(code, 3) % l.ts[1]);
        auto v = slice_target_to_scalar(g, a, b);
        X::check(v.mesh(), l.mv);
        for (auto w : v.mesh()) {
          long p = pos(l.mv, w.data_index());
          cd y   = v[w];
          if (!(y == l.d[p * n + a * l.ts[1] + b])) FAIL("content", "a matrix element at mesh point %ld is (%g,%g)", p, y.real(), y.imag());
        }
        auto at = *v.mesh().begin();
        v[at]   = num(5.);
        l.d[pos(l.mv, at.data_index()) * n + a * l.ts[1] + b] = 5.;
        sim::probe("slices of a target");
      }
    }
    void op_map(int d, int s, uint64_t code) {
      if constexpr (A > 0) {
        usable(s, code);
        Obj b = m(s);
        for (auto &l : b.l)
          for (auto &x : l.d) x *= 2.;
        m(d).junk = true;
        if (code % 2)
          o[d] = map_block_gf([](auto const &g) { return L{2. * g}; }, o[s]);
        else
          o[d] = map_block_gf([](auto const &g) { return L{2. * g}; }, std::as_const(o[s]));
        m(d) = b;
        std::vector<long> sizes; // other results come as lists
        if constexpr (A == 1) {
          auto v = map_block_gf([](auto const &g) { return (long)g.mesh().size(); }, o[d]);
          for (size_t i = 0; i < v.size(); ++i) same(v[i], X::npts(b.l[i].mv), "the size of the mesh of a block");
          same((long)v.size(), (long)b.l.size(), "the number of results");
        }
      }
    }
    void op_badmake(int s, uint64_t code) {
      if constexpr (A > 0) {
        usable(s, code);
        bool threw = false;
        try {
          if constexpr (A == 1) {
            auto v = list(m(s));
            auto n = names(1, (int)v.size());
            if (code % 2)
              n.pop_back();
            else
              n.push_back("more");
            G g{n, v};
          } else {
            auto v  = rows(m(s));
            auto n1 = names(1, (int)v.size()), n2 = names(1, (int)v[0].size());
            ((code & 1) ? n1 : n2).push_back("more");
            if (code & 2)
              G g{{n1, n2}, v};
            else
              auto g = make_block2_gf(n1, n2, v);
          }
        } catch (triqs::runtime_error const &) { threw = true; }
        if (!threw) FAIL("not-refused", "blocks and names in different numbers are accepted");
      }
    }

    // ------------------------------------------------------------- tails
    void op_tail(int s, int tp, uint64_t code) {
      if constexpr (X::tails) {
        usable(s, code);
        size_t i = code % m(s).l.size();
        leaf(o[s], (int)i).mesh().set_tail_fit_parameters(tails[tp].frac, tails[tp].nmax, tails[tp].order);
        m(s).l[i].tp = tp;
      }
    }
    void op_fit(int s, uint64_t code) {
      if constexpr (X::tails && !is_re) {
        usable(s, code);
        size_t i = code % m(s).l.size();
        Leaf &l  = m(s).l[i];
        auto go  = [&](L const &g) -> std::optional<std::vector<cd>> {
          try {
            auto [t, err] = fit_tail(g);
            std::vector<cd> v{err};
            for (long k = 0; k < t.size(); ++k) v.push_back(t.data()[k]);
            return v;
          } catch (triqs::runtime_error const &) { return std::nullopt; }
        };
        auto x = go(leaf(o[s], (int)i)), y = go(leaf_of_model(l)); // a new one that holds the same
        if (x.has_value() != y.has_value()) FAIL("tail", "fit_tail %s, and it %s for a new object with the same mesh and data", x ? "works" : "throws", y ? "works" : "throws");
        if (X::positive(l.mv) && x) FAIL("tail", "fit_tail works for positive frequencies only");
        if (x && *x != *y) {
          size_t k = 0;
          while (k < x->size() && k < y->size() && (*x)[k] == (*y)[k]) ++k;
          FAIL("tail", "fit_tail gives another result than for a new object with the same mesh and data (%zu and %zu numbers, the %zu-th is %g and %g)", x->size(), y->size(), k, k < x->size() ? (*x)[k].real() : 0., k < y->size() ? (*y)[k].real() : 0.);
        }
        sim::probe(x ? "tail fitted" : "tail fit refused");
      }
    }

    // ------------------------------------------------------------- evaluation
    template <typename Y> static std::vector<cd> flat(Y const &y) {
      std::vector<cd> r;
      if constexpr (nda::is_scalar_v<Y>)
        r.push_back(y);
      else
        for (long k = 0; k < y.size(); ++k) r.push_back(y.data()[k]);
      return r;
    }
    void op_eval(int s, uint64_t code) {
      usable(s, code);
      Obj keep = m(s);
      size_t i = sim::mix(code, 9) % m(s).l.size();
      Leaf &l  = m(s).l[i];
      long n   = vol(l.ts);
      if constexpr (EV<M>::can) {
        for (int q = 0; q < 3; ++q) {
          auto see = [&](auto &&g) {
            arguments(std::as_const(g).mesh(), l.mv, sim::mix(code, 50 + q), [&](Terms const &t, auto const &...x) {
              std::vector<cd> e(n, 0.);
              double scale = 0;
              for (auto const &y : t) {
                scale += 10 * std::abs(y.w);
                for (long k = 0; k < n; ++k) {
                  cd z = l.d[y.at * n + k];
                  e[k] += y.w * (y.cj ? std::conj(z) : z);
                }
              }
              auto v = flat(make_regular(g(x...)));
              if ((long)v.size() != n) FAIL("evaluation", "the evaluation gives %zu numbers, expected %ld", v.size(), n);
              for (long k = 0; k < n; ++k)
                if (!(std::abs(v[k] - e[k]) <= 1e-9 * (1 + scale)))
                  FAIL("evaluation", "the evaluation gives (%.15g,%.15g) for element %ld, expected (%.15g,%.15g)", v[k].real(), v[k].imag(), k, e[k].real(), e[k].imag());
              sim::probe("evaluated");
            });
          };
          auto &&g = leaf(o[s], (int)i);
          switch (sim::mix(code, 60 + q) % 4) {
            case 0: see(g); break;
            case 1: see(std::as_const(g)); break;
            case 2: see(g()); break;
            default: see(std::as_const(g)());
          }
        }
      }
      if constexpr (std::is_same_v<M, mesh::imfreq> && !is_re) { // outside of the mesh: the tail
        long out = sim::mix(code, 70) % 3 || X::positive(l.mv) ? X::first(l.mv) + X::npts(l.mv) + (long)(code % 7) : X::first(l.mv) - 1 - (long)(code % 7);
        mesh::matsubara_freq at{out, X::tab[l.mv].beta, X::tab[l.mv].f ? Fermion : Boson};
        auto go = [&](L const &g) -> std::optional<std::vector<cd>> {
          try {
            return flat(make_regular(g(at)));
          } catch (triqs::runtime_error const &) { return std::nullopt; }
        };
        auto x = go(leaf(o[s], (int)i)), y = go(leaf_of_model(l));
        if (x.has_value() != y.has_value()) FAIL("tail", "the evaluation outside of the mesh %s, and it %s for a new object with the same mesh and data", x ? "works" : "throws", y ? "works" : "throws");
        if (X::positive(l.mv) && x) FAIL("tail", "the evaluation outside of the mesh works for positive frequencies only");
        if (x && *x != *y) FAIL("tail", "the evaluation outside of the mesh gives another result than for a new object with the same mesh and data");
        if (x) { // the sum over the fitted moments
          auto tail = fit_tail(leaf_of_model(l)).first;
          for (long k = 0; k < n; ++k) {
            cd e = 0, z = 1;
            double scale = 0;
            for (long q = 0; q < tail.extent(0); ++q, z /= cd(at)) {
              cd a = tail.data()[q * n + k] * z;
              e += a;
              scale += std::abs(a);
            }
            if (!(std::abs(e - (*x)[k]) <= 1e-6 * (1 + scale))) FAIL("tail", "the evaluation outside of the mesh gives (%.15g,%.15g), the fitted tail is (%.15g,%.15g)", (*x)[k].real(), (*x)[k].imag(), e.real(), e.imag());
          }
        }
        sim::probe(x ? "evaluated outside of the mesh" : "evaluation outside of the mesh refused");
      }
    }
    // ------------------------------------------------------------- functions that make new objects or rewrite one
    static void close_to(cd a, cd b, double tol, char const *what) {
      if (!(std::abs(a - b) <= tol)) FAIL("function", "%s gives (%.15g,%.15g), expected (%.15g,%.15g)", what, a.real(), a.imag(), b.real(), b.imag());
    }
    template <typename Y> static void check_fun(Y const &g, Leaf const &l, char const *what, double tol = 0) {
      X::check(g.mesh(), l.mv);
      auto d = make_regular(g.data());
      auto sh = full(l);
      for (size_t i = 0; i < sh.size(); ++i)
        if (d.shape()[i] != sh[i]) FAIL("function", "%s: the extent %zu of the data is %ld, expected %ld", what, i, (long)d.shape()[i], sh[i]);
      for (size_t i = 0; i < l.d.size(); ++i) close_to(d.data()[i], l.d[i], tol, what);
    }
    // the opposite Matsubara frequency
    static long opposite(Leaf const &l, long p) {
      if constexpr (std::is_same_v<M, mesh::imfreq>)
        return X::npts(l.mv) - 1 - p;
      else
        return p;
    }
    static Leaf each(Leaf l, auto f) {
      for (auto &x : l.d) x = f(x);
      return l;
    }
    // (g + adjoint or conjugate) / 2
    static Leaf symmetric(Leaf const &l, bool adjoint) {
      Leaf r = l;
      long n = vol(l.ts);
      for (long p = 0; p < X::npts(l.mv); ++p)
        for (long k = 0; k < n; ++k) {
          long kk = adjoint && R == 2 ? (k % l.ts[1]) * l.ts[1] + k / l.ts[1] : k;
          if (adjoint && R == 4) {
            long h = l.ts[2] * l.ts[3]; // (i,j),(k,l)
            kk     = (k % h) * h + k / h;
          }
          r.d[p * n + k] = 0.5 * (l.d[p * n + k] + std::conj(l.d[opposite(l, p) * n + kk]));
        }
      return r;
    }
    void op_func(int d, int s, int f, uint64_t code) {
      usable(s, code);
      Obj b    = m(s);
      size_t i = sim::mix(code, 9) % b.l.size();
      Leaf l   = b.l[i];
      auto &&g = leaf(o[s], (int)i);
      bool square = R == 0 || (R == 2 && mat && l.ts[0] == l.ts[1]);
      auto all = [&](auto fun) {
        for (auto &x : b.l) x = fun(x);
      };
      sim::probe("function");
      switch (f) {
        case 0: // real and imaginary part, conjugate
          if constexpr (!is_re) {
            auto rg = real(o[s]);
            auto ig = imag(std::as_const(o[s])());
            for (size_t k = 0; k < b.l.size(); ++k) {
              check_fun(leaf(rg, (int)k), each(b.l[k], [](cd x) { return cd(x.real()); }), "real");
              check_fun(leaf(ig, (int)k), each(b.l[k], [](cd x) { return cd(x.imag()); }), "imag");
            }
            if constexpr (A > 0) {
              if (rg.block_names() != o[s].block_names()) FAIL("function", "real changes the names of the blocks");
            } else {
              m(d).junk = true;
              o[d]      = conj(g);
              all([](Leaf const &x) { return each(x, [](cd y) { return std::conj(y); }); });
              m(d) = b;
            }
          }
          break;
        case 1: // is_gf_real, after perhaps making it so
          if constexpr (!is_re && A == 0) {
            if (code % 2) {
              m(s).junk = true;
              o[s]      = 0.5 * (g + conj(g));
              m(s).l[0] = l = each(l, [](cd y) { return cd(y.real()); });
              m(s).junk = false;
            }
            bool is = std::all_of(l.d.begin(), l.d.end(), [](cd x) { return x.imag() == 0; });
            if (is_gf_real(o[s]) != is) FAIL("function", "is_gf_real is %d", !is);
          }
          break;
        case 2: // transpose, inverse, products with matrices
          if constexpr (std::is_same_v<T, matrix_valued> && arity == 1) {
            long n = vol(l.ts);
            if (square) {
              long k = l.ts[0];
              // diagonally dominant: add 20 on the diagonal
              Leaf a = l;
              for (long p = 0; p < X::npts(l.mv); ++p)
                for (long x = 0; x < k; ++x) a.d[p * n + x * k + x] += 40.;
              L ga      = leaf_of_model(a);
              auto inv  = inverse(ga);
              auto inv2 = code % 3 ? inverse(ga()) : inverse(std::as_const(ga)());
              check_fun(ga, a, "the operand of inverse");
              for (auto w : inv.mesh()) {
                auto e = nda::make_regular(nda::matrix<cd>(ga[w]) * nda::matrix<cd>(inv[w]));
                auto f = nda::make_regular(nda::matrix<cd>(inv2[w]) * nda::matrix<cd>(ga[w]));
                for (long x = 0; x < k; ++x)
                  for (long y = 0; y < k; ++y) {
                    close_to(e(x, y), x == y, 1e-10, "a function times its inverse");
                    close_to(f(x, y), x == y, 1e-10, "the inverse of a view times the function");
                  }
              }
              nda::matrix<cd> Lm(k, k), Rm(k, k);
              for (long x = 0; x < k; ++x)
                for (long y = 0; y < k; ++y) Lm(x, y) = cd(x + 1, y), Rm(x, y) = cd(y - x, 1);
              auto left = l, right = l, both = l;
              for (long p = 0; p < X::npts(l.mv); ++p)
                for (long x = 0; x < k; ++x)
                  for (long y = 0; y < k; ++y) {
                    cd u = 0, v = 0, w = 0;
                    for (long z = 0; z < k; ++z) {
                      u += Lm(x, z) * l.d[p * n + z * k + y];
                      v += l.d[p * n + x * k + z] * Rm(z, y);
                      for (long q = 0; q < k; ++q) w += Lm(x, z) * l.d[p * n + z * k + q] * Rm(q, y);
                    }
                    left.d[p * n + x * k + y]  = u;
                    right.d[p * n + x * k + y] = v;
                    both.d[p * n + x * k + y]  = w;
                  }
              check_fun(Lm * L{g}, left, "a matrix times a function", 1e-9);
              check_fun(L{g} * Rm, right, "a function times a matrix", 1e-9);
              L z{g};
              set_from_L_G_R(z, Lm, g, Rm);
              check_fun(z, both, "set_from_L_G_R", 1e-9);
              // in place
              if constexpr (A == 0) {
               if (code % 2) {
                m(s).junk = true;
                o[s]      = ga;
                invert_in_place(o[s]());
                o[s]      = inverse(o[s]);
                for (auto const &w : o[s].mesh()) {
                  auto e = nda::matrix<cd>(o[s][w]);
                  auto f = nda::matrix<cd>(ga[w]);
                  for (long x = 0; x < k * k; ++x) close_to(e.data()[x], f.data()[x], 1e-9, "the inverse of the inverse");
                }
               }
              }
            }
          }
          break;
        case 3: // symmetries
          if constexpr ((std::is_same_v<M, mesh::imfreq> || std::is_same_v<M, mesh::imtime>)&&(R == 0 || R == 2 || R == 4)) {
            if (!std::all_of(b.l.begin(), b.l.end(), [](Leaf const &x) { return R == 0 || (R == 2 && x.ts[0] == x.ts[1]) || (R == 4 && x.ts[0] == x.ts[2] && x.ts[1] == x.ts[3]); })) break;
            auto herm = [&](Leaf const &x) { return X::positive(x.mv) ? x : symmetric(x, true); };
            auto both = [&](Obj const &ob, auto pred) { return std::all_of(ob.l.begin(), ob.l.end(), [&](Leaf const &x) { return pred(x).d == x.d; }); };
            if constexpr (A < 2) {
              if (is_gf_hermitian(o[s]) != both(b, herm)) FAIL("function", "is_gf_hermitian is %d", !both(b, herm));
            }
            if constexpr (A == 0) {
              Obj h = b;
              for (auto &x : h.l) x = herm(x);
              check(o[s], b, "the operand");
              m(d).junk = true;
              o[d]      = make_hermitian(o[s]);
              m(d)      = h;
              if (!is_gf_hermitian(o[d])) FAIL("function", "the result of make_hermitian is not hermitian");
            }
          }
          break;
        case 4:
          if constexpr (std::is_same_v<M, mesh::imfreq>) {
            auto re   = [&](Leaf const &x) { return X::positive(x.mv) ? x : symmetric(x, false); };
            bool is   = std::all_of(b.l.begin(), b.l.end(), [&](Leaf const &x) { return re(x).d == x.d; });
            if constexpr (A < 2) {
              if (is_gf_real_in_tau(o[s]) != is) FAIL("function", "is_gf_real_in_tau is %d", !is);
            }
            if constexpr (A == 0) {
              m(d).junk = true;
              o[d]      = make_real_in_tau(o[s]);
              all(re);
              m(d) = b;
              for (auto &x : m(d).l) x.tp = m(d).l[0].tp; // kept
            }
          }
          break;
        case 5: // positive frequencies and back
          if constexpr (std::is_same_v<M, mesh::imfreq>) {
            auto v = positive_freq_view(g);
            long n = vol(l.ts), u0 = X::positive(l.mv) ? 0 : X::tab[l.mv].f ? X::tab[l.mv].n : X::tab[l.mv].n - 1;
            same(v.mesh().positive_only(), 1, "positive_only of the positive part");
            same(v.mesh().size(), X::tab[l.mv].n, "the size of the positive part");
            for (auto w : v.mesh()) check_target(v[w], &l.d[(u0 + w.data_index()) * n], n, "the positive part", w.data_index());
            if (!X::positive(l.mv)) {
              auto full = make_gf_from_real_gf(make_const_view(v));
              Leaf r    = l;
              for (long p = 0; p < X::npts(l.mv); ++p)
                for (long k = 0; k < n; ++k)
                  if (p < u0) r.d[p * n + k] = std::conj(l.d[opposite(l, p) * n + k]);
              check_fun(full, r, "make_gf_from_real_gf");
            } else {
              int un = X::unfold(l.mv);
              if (un >= 0) {
                L full = make_gf_from_real_gf(make_const_view(g));
                X::check(full.mesh(), un);
                for (auto w : full.mesh()) {
                  long at = w.index();
                  bool neg = at < 0;
                  if (neg) at = -at - (X::tab[l.mv].f ? 1 : 0);
                  std::vector<cd> e(&l.d[at * n], &l.d[at * n] + n);
                  if (neg)
                    for (auto &x : e) x = std::conj(x);
                  check_target(full[w], e.data(), n, "make_gf_from_real_gf", w.data_index());
                }
              }
            }
            poke_positive(s, i, code, v, u0);
          }
          break;
        default: // a scalar function seen as a matrix
          if constexpr (std::is_same_v<T, scalar_valued>) {
            auto v = reinterpret_scalar_valued_gf_as_matrix_valued(g);
            for (auto w : v.mesh()) {
              long p = pos(l.mv, w.data_index());
              auto x = nda::make_regular(v[w]);
              if (x.shape() != std::array<long, 2>{1, 1} || cd(x(0, 0)) != l.d[p]) FAIL("function", "a scalar function as a matrix is wrong at point %ld", p);
            }
            auto w = *v.mesh().begin();
            v[w]() = num(7.);
            m(s).l[i].d[pos(l.mv, w.data_index())] = 7.;
          }
      }
    }
    template <typename V> void poke_positive(int s, size_t i, uint64_t code, V &&v, long u0) {
      Leaf &l = m(s).l[i];
      long n = vol(l.ts), at = (long)(sim::mix(code, 3) % X::tab[l.mv].n);
      Leaf x = l;
      content(x, sim::mix(code, 4));
      for (auto w : v.mesh())
        if (w.data_index() == at) set_target(v[w], &x.d[(u0 + at) * n]);
      std::copy(&x.d[(u0 + at) * n], &x.d[(u0 + at) * n] + n, &l.d[(u0 + at) * n]);
    }

    // ------------------------------------------------------------- collective operations
    mpi::communicator members(int how, std::vector<int> &who) {
      who.clear();
      int r = sim::rank();
      if (how == 0) {
        for (int q = 0; q < world.size(); ++q) who.push_back(q);
        return world;
      }
      for (int q = r % 2; q < world.size(); q += 2) who.push_back(q);
      return world.split(r % 2, r);
    }
    // the same structure everywhere
    void agree(int s, int k, uint64_t code) {
      int r = sim::rank();
      usable(s, sim::mix(code, r));
      auto &at = W().at[k];
      at[r]    = m(s);
      world.barrier();
      bool eq = true;
      for (int q = 1; q < world.size(); ++q) eq = eq && same_structure(at[0], at[q]);
      world.barrier();
      if (!eq) {
        make(s, code, 100 + r);
        at[r] = m(s);
      } else
        sim::probe("collective on objects with a history");
      world.barrier();
    }
    void op_bcast(int s, int root, int how, int k, uint64_t code) {
      agree(s, k, code);
      std::vector<int> who;
      auto c = members(how & 1, who);
      root %= (int)who.size();
      if constexpr (A == 2) {
        mpi::broadcast(o[s], c, root);
      } else if (how & 2) {
        auto v = o[s]();
        mpi::broadcast(v, c, root);
      } else
        mpi::broadcast(o[s], c, root);
      auto const &from = W().at[k][who[root]];
      for (size_t i = 0; i < m(s).l.size(); ++i) m(s).l[i].d = from.l[i].d;
      sim::probe("broadcast");
    }
    void op_reduce(int d, int s, int root, bool all, int how, int sub, int k, uint64_t code) {
      agree(s, k, code);
      std::vector<int> who;
      auto c = members(sub, who);
      root %= (int)who.size();
      int r = sim::rank();
      Obj e = m(s);
      for (auto q : who) {
        if (q == r) continue;
        for (size_t i = 0; i < e.l.size(); ++i)
          for (size_t j = 0; j < e.l[i].d.size(); ++j) e.l[i].d[j] += W().at[k][q].l[i].d[j];
      }
      bool gets = all || who[root] == r;
      if (!gets)
        for (auto &l : e.l) l.dirty = true;
      if (how == 2 || how == 3) {
        if (d != s) usable(d, code + 7);
        bool ok = same_blocks(m(d), e);
        for (size_t i = 0; ok && i < e.l.size(); ++i) ok = m(d).l[i].ts == e.l[i].ts && m(d).l[i].mv == e.l[i].mv;
        if (!ok) how = 0;
      }
      auto red = [&](auto &&x) { return all ? mpi::all_reduce(x, c) : mpi::reduce(x, c, root); };
      if constexpr (A == 2) {
        if (how == 0) how = 2;
        // leaf by leaf
        Obj target = e;
        std::vector<std::vector<L>> v(e.n1.size());
        for (size_t i = 0; i < e.l.size(); ++i) v[i / e.n2.size()].push_back(L{red(leaf(o[s], (int)i))});
        m(d).junk = true;
        o[d]      = G{{e.n1, e.n2}, v};
        m(d)      = e;
      } else {
        if (how == 2 || how == 3) {
          Obj x = m(d);
          for (size_t i = 0; i < x.l.size(); ++i) {
            x.l[i].d     = e.l[i].d;
            x.l[i].dirty = e.l[i].dirty;
          }
          if (how == 2)
            o[d]() = red(o[s]);
          else {
            auto v = o[d]();
            v      = red(std::as_const(o[s])());
            if constexpr (A == 1) {
              if (v.block_names() != e.n1) FAIL("blocks", "a view that a reduction was assigned to has the wrong names");
            }
          }
          m(d) = x;
        } else {
          m(d).junk = true;
          switch (how) {
            case 0: o[d] = red(o[s]); break;
            case 1: {
              G t{red(o[s])};
              o[d] = t;
              break;
            }
            case 4: {
              auto l = red(o[s]);
              o[d]   = l;
              break;
            }
            default: o[d] = red(std::as_const(o[s])());
          }
          m(d) = e;
        }
      }
      sim::probe(all ? "all_reduce" : "reduce");
    }

    // ------------------------------------------------------------- storage
    static Obj as_read(Obj b) { // what comes back
      for (auto &l : b.l) {
        l.tp = 0;
        if constexpr (std::is_same_v<M, mesh::imfreq>) {
          if (!X::positive(l.mv)) continue;
          bool boson = !X::tab[l.mv].f;
          long n = vol(l.ts), P = X::npts(l.mv), L1 = boson ? P - 1 : P, u0 = boson ? 1 : 0;
          std::vector<cd> d((2 * P - u0) * n);
          for (long u = u0; u < P; ++u)
            for (long k = 0; k < n; ++k) {
              d[(L1 + u) * n + k]    = l.d[u * n + k];
              d[(P - 1 - u) * n + k] = std::conj(l.d[u * n + k]);
            }
          if (boson)
            for (long k = 0; k < n; ++k) d[(P - 1) * n + k] = l.d[k];
          l.d  = d;
          l.mv = X::unfold(l.mv);
        }
      }
      return b;
    }
    std::string fname() { return "gf" + std::to_string(sim::rank()); }
    void op_save(int how, uint64_t code) {
      auto &w = W();
      int r   = sim::rank();
      for (int s = 0; s < 3; ++s) usable(s, code + s);
      auto &f = w.tmpf[r];
      f.clear();
      try {
        {
          h5::file file(fname() + ".tmp", 'w');
          h5::group g{file};
          for (int s = 0; s < 3; ++s) {
            auto key = "g" + std::to_string(s);
            if (how & 1) h5_write(g, key, o[(s + 1) % 3]); // overwritten
            if (how & 2)
              h5_write(g, key, std::as_const(o[s])());
            else if (how & 4)
              h5_write(g, key, o[s]());
            else
              h5_write(g, key, o[s]);
            f[key] = m(s);
          }
        }
        h5::rename(fname() + ".tmp", fname());
        w.file[r]  = f;
        w.valid[r] = true;
        sim::probe("saved");
      } catch (h5::io_error const &) { sim::probe("saving failed with an I/O error"); }
    }
    void op_load(int d, int key, int how) {
      auto &w = W();
      int r   = sim::rank();
      if (!w.valid[r]) return;
      auto k    = "g" + std::to_string(key);
      m(d).junk = true;
      try {
        h5::file file(fname(), 'r');
        h5::group g{file};
        if (how == 0)
          h5_read(g, k, o[d]);
        else if (how == 1)
          o[d] = h5::read<G>(g, k);
        else {
          G t;
          h5_read(g, k, t);
          o[d] = std::move(t);
        }
      } catch (h5::io_error const &) {
        sim::probe("loading failed with an I/O error");
        return;
      } catch (std::exception const &e) { FAIL("unreadable", "reading back what was written throws: %s", e.what()); }
      m(d) = as_read(w.file[r].at(k));
      sim::probe("loaded");
    }
    void op_serial(int d, int s, uint64_t code) {
      usable(s, code);
      Obj b     = as_read(m(s));
      try {
        auto x    = h5::serialize(o[s]);
        auto t    = h5::deserialize<G>(x);
        m(d).junk = true;
        o[d]      = std::move(t);
      } catch (h5::io_error const &) { return; }
      m(d) = b;
    }
    void op_badread(int d, uint64_t code) { // a group that holds something else
      usable(d, code);
      static const char *tags[] = {"Dict", "List", "NdArray", "BlockGf", "Block2Gf", "Gf", "MeshImFreq", "Operator"};
      std::string tag           = tags[code % 8];
      if (tag == "BlockGf" && A == 1) tag = "Block2Gf";
      if (tag == "Block2Gf" && A == 2) tag = "BlockGf";
      if (tag == "Gf" && A == 0) tag = "Operator";
      bool threw = false, io = false;
      try {
        h5::file file(fname() + ".other", 'w');
        h5::group g{file};
        h5_write(g, "x", o[d]);
        auto x = g.open_group("x");
        h5::write_hdf5_format_as_string(x, tag);
        try {
          h5_read(g, "x", o[d]);
        } catch (triqs::runtime_error const &) { threw = true; }
      } catch (h5::io_error const &) { io = true; }
      if (!threw && !io) FAIL("not-refused", "a group with Format %s is read", tag.c_str());
    }
    void op_old(int d, uint64_t code) { // files of older versions
      if constexpr (A == 0 && requires(h5::group g) { X::write_old(g, "", 0); }) {
        usable(d, code);
        Leaf l = m(d).l[0];
        int mv = (int)(sim::mix(code, 2) % X::nvar);
        l.mv   = mv;
        content(l, code);
        m(d).junk = true;
        try {
          h5::file file(fname() + ".old", 'w');
          h5::group g{file};
          auto x = g.create_group("x");
          h5::write_hdf5_format_as_string(x, code % 2 ? "Gf" : "GfImFreq");
          h5::write(x, "data", array_of(l));
          X::write_old(x, "mesh", mv);
          h5_read(g, "x", o[d]);
        } catch (h5::io_error const &) {
          return;
        } catch (std::exception const &e) { FAIL("unreadable", "reading a file of an older version throws: %s", e.what()); }
        Obj b;
        b.junk = false;
        b.l    = {l};
        m(d)   = as_read(b);
        sim::probe("old format read");
      }
    }

    // ------------------------------------------------------------- the process
    void go() {
      auto &P = sim::plan();
      int r   = sim::rank();
      for (int s = 0; s < 3; ++s) {
        o[s]      = G{};
        m(s).junk = true;
      }
      if (sim::incarnation() > 0) {
        sim::probe("restart after a crash");
        gw::where = "restart";
        for (int s = 0; s < 3; ++s) op_load(s, s, 0);
        check_all("after a restart");
      }
      for (int &pc = me().pc; pc < (int)P.ops.size();) {
        int k         = pc++;
        auto const &op = P.ops[k];
        if (op.rank != -1 && op.rank != r) continue;
        sim::step(100);
        int d = (int)op.arg(0) % 3, s = (int)op.arg(1) % 3;
        uint64_t code = (uint64_t)op.arg(2);
        long h        = op.arg(3);
        sim::trace("%s %ld %ld %ld %ld", op.name.c_str(), (long)d, (long)s, (long)code, h);
        gw::where = op.name;
        // a failing allocation
        bool armed = false;
        for (auto const &f : P.faults)
          if (f.kind == "alloc" && f.a[0] == r && f.a[1] == k) armed = true, nda::stub::alloc_countdown = f.a[2];
        Obj keep[3];
        if (armed) {
          for (int i = 0; i < 3; ++i) keep[i] = m(i);
        }
        try {
          run(op, d, s, code, h, k);
          if (armed && nda::stub::alloc_countdown > 0) nda::stub::alloc_countdown = 0;
        } catch (std::bad_alloc const &) {
          if (!armed) throw;
          nda::stub::alloc_countdown = 0;
          sim::fired("alloc");
          // the target is whatever it is, operands that had to be made new are too
          for (int i = 0; i < 3; ++i) m(i).junk = m(i).junk || i == d;
        }
        gw::where = op.name;
        check_all("afterwards");
      }
      me().pc = 1 << 20;
    }
    void run(sim::Op const &op, int d, int s, uint64_t code, long h, int k) {
      auto &n = op.name;
      if (n == "make") make(d, code, code);
      else if (n == "fill") op_fill(d, (int)(h % 6), code);
      else if (n == "copy") op_copy(d, s, (int)(h % 8), code);
      else if (n == "move") op_move(d, s, (int)(h % 3), code);
      else if (n == "swap") op_swap(d, s, code);
      else if (n == "vassign") op_vassign(d, s, (int)(h % 4), code);
      else if (n == "scalar") op_scalar(d, code);
      else if (n == "expr") op_expr(d, s, (int)(op.arg(4) % 3), (int)(h % NFORM), (int)(h / NFORM % 6), code);
      else if (n == "cmp") op_cmp(d, s, code);
      else if (n == "view") op_view(d, s, code);
      else if (n == "slice") op_slice(d, code);
      else if (n == "map") op_map(d, s, code);
      else if (n == "badmake") op_badmake(d, code);
      else if (n == "tail") op_tail(d, (int)(h % 5), code);
      else if (n == "fit") op_fit(d, code);
      else if (n == "eval") op_eval(d, code);
      else if (n == "func") op_func(d, s, (int)(h % 7), code);
      else if (n == "bcast") op_bcast(d, (int)(h / 4), (int)(h % 4), k, code);
      else if (n == "reduce") op_reduce(d, s, (int)op.arg(4), h % 2, (int)(h / 2 % 6), (int)(h / 12 % 2), k, code);
      else if (n == "save") op_save((int)(h % 8), code);
      else if (n == "load") op_load(d, s, (int)(h % 3));
      else if (n == "serial") op_serial(d, s, code);
      else if (n == "badread") op_badread(d, code);
      else if (n == "old") op_old(d, code);
    }
  };
} // namespace gw
