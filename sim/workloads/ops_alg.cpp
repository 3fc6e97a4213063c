// O01: the algebra of second quantized operators, real_or_complex coefficients, sets of fundamental operators, storage.
// Real code: triqs/operators/*, triqs/hilbert_space/fundamental_operator_set.*, triqs/utility/real_or_complex.hpp.
// Oracle: exact matrices on the Fock space of four modes (all coefficients are short dyadic numbers).
#include "ops_common.hpp"
#include <triqs/operators/util/extractors.hpp>
using namespace ow;

namespace {
  struct Val { // model of an operator
    Mat m;
    bool real = true; // every coefficient that went into it was real
    bool junk = true;
  };
  struct Filed {
    std::vector<Term> t;
    std::vector<int> fops; // modes, in the order of the stored set
    bool all_real;         // no coefficient is complex
  };
  struct World {
    int pc = 0;
    std::map<std::string, Filed> file, tmp;
    bool valid = false;
    Val v[3];
  };
  World &W() { return *static_cast<World *>(sim::world()); }

  static const double dyadic[] = {1, -1, 2, 0.5, -0.5, 1.5, -2, 0.25, 3, -0.75};

  template <typename S> struct Proc {
    using O = Op<S>;
    std::vector<indices_t> U;
    O o[3];
    Val &v(int i) { return W().v[i]; }

    // ------------------------------------------------------------- random material
    uint64_t seed = 0;
    uint64_t rnd() { return seed = sim::mix(seed, 77); }
    int below(int n) { return (int)(rnd() % (uint64_t)n); }
    struct Num {
      cd x;
      bool real;
      S s() const { return scalar_of<S>(x, real); }
    };
    Num num() {
      double re = dyadic[below(10)], im = dyadic[below(10)];
      if constexpr (std::is_same_v<S, double>) return {re, true};
      switch (below(5)) {
        case 0: return {cd(re, im), false};
        case 1: return {cd(0, im), false};
        case 2: return {cd(re, 0), !std::is_same_v<S, cd> && below(2)};
        default: return {re, !std::is_same_v<S, cd>};
      }
    }
    Num pow2() { // may be divided by
      double x = dyadic[std::array{0, 1, 2, 3, 4, 6, 7}[below(7)]];
      if (std::is_same_v<S, double> || below(2)) return {x, !std::is_same_v<S, cd>};
      return {below(2) ? cd(0, x) : cd(x, 0), false};
    }
    // c, c_dag or n through the free functions, with the types a user writes
    template <typename F> O by_type(indices_t const &i, F f) {
      auto L = [&](int k) { return std::get<long>(i[k]); };
      auto T = [&](int k) { return std::get<std::string>(i[k]); };
      auto is_s = [&](int k) { return std::holds_alternative<std::string>(i[k]); };
      if (i.empty()) return f();
      if (i.size() == 1) return is_s(0) ? f(T(0)) : f(L(0));
      if (i.size() == 2) {
        if (is_s(0)) return is_s(1) ? f(T(0), T(1)) : (L(1) >= 0 && L(1) < 100) ? f(T(0), (int)L(1)) : f(T(0), L(1));
        return is_s(1) ? f(L(0), T(1)) : f(L(0), L(1));
      }
      if (is_s(0)) return f(T(0), T(1), T(2));
      return f(L(0), T(1), L(2));
    }
    O letter(Let l, int how) {
      auto const &i = U[l.mode];
      if (how == 0) return O::make_canonical(l.dag, i);
      return l.dag ? by_type(i, [](auto... x) { return triqs::operators::c_dag<S>(x...); }) : by_type(i, [](auto... x) { return triqs::operators::c<S>(x...); });
    }
    // a new value for slot d
    void make(int d, uint64_t code) {
      seed      = sim::mix(code, 5);
      v(d).junk = true;
      Mat m;
      bool real = true;
      O r;
      int n = below(4) + (below(8) ? 1 : 0);
      for (int k = 0; k < n; ++k) {
        auto c = num();
        real   = real && c.real;
        Word w;
        int len = below(6);
        for (int i = 0; i < len; ++i) w.push_back({below(2) == 0, below(4)});
        int how = below(6);
        if (how == 0) { // density
          int i = below(4);
          w     = {{true, i}, {false, i}};
          r += by_type(U[i], [](auto... x) { return triqs::operators::n<S>(x...); }) * c.s();
        } else if (how == 1) { // a given monomial, in normal order
          std::sort(w.begin(), w.end(), [&](Let a, Let b) { return a.dag != b.dag ? a.dag : a.dag ? less_idx(U[a.mode], U[b.mode]) : less_idx(U[b.mode], U[a.mode]); });
          w.erase(std::unique(w.begin(), w.end()), w.end());
          triqs::operators::monomial_t mono;
          for (auto l : w) mono.push_back({l.dag, U[l.mode]});
          r += O(c.s(), mono);
        } else {
          O t(c.s());
          for (auto l : w) {
            if (how == 2)
              t *= letter(l, 1);
            else
              t = t * letter(l, how & 1);
          }
          r = how == 3 ? t + r : r + t;
        }
        m.add(w, c.x);
      }
      o[d]      = std::move(r);
      v(d).m    = m;
      v(d).real = real;
      v(d).junk = false;
      if (!m.fits()) sim::harness_error("a new operator is too big");
    }
    void usable(int s, uint64_t code) {
      if (v(s).junk || !v(s).m.fits()) make(s, sim::mix(code, 100 + s));
    }

    // ------------------------------------------------------------- checks
    void check(int s) {
      auto t = terms(o[s], U);
      if (v(s).junk) return;
      Mat m = matrix_of(t);
      if (!(m == v(s).m)) {
        int i = 0;
        while (m.a[i] == v(s).m.a[i]) ++i;
        FAIL("value", "slot %d: <%d|O|%d> is (%g,%g), expected (%g,%g)", s, i / D, i % D, m.a[i].real(), m.a[i].imag(), v(s).m.a[i].real(), v(s).m.a[i].imag());
      }
      if constexpr (std::is_same_v<S, roc>)
        if (v(s).real)
          for (auto &x : t)
            if (!x.real) FAIL("flag", "slot %d: only real numbers were used, a coefficient is complex", s);
      sim::state(sim::mix(t.size(), sim::mix(m.a.size(), (uint64_t)(m.big() * 256))));
    }
    void check_all() {
      for (int s = 0; s < 3; ++s) check(s);
    }
    void put(int d, Mat m, bool real) {
      v(d).m    = std::move(m);
      v(d).real = real;
      v(d).junk = false;
    }
    bool is(O const &x, Mat const &m, char const *what) {
      if (!(matrix_of(terms(x, U)) == m)) FAIL("value", "%s is wrong", what);
      return true;
    }

    // ------------------------------------------------------------- expressions
    static constexpr int NEXPR = 40;
    void op_expr(int d, int a, int b, int f, uint64_t code) {
      usable(a, code);
      usable(b, code);
      bool onto = f == 3 || f == 4 || f == 5 || (f >= 16 && f <= 19) || f == 29 || f == 30; // compound: the target is an operand
      if (onto) usable(d, code);
      seed   = sim::mix(code, 9);
      Num s  = num(), p = pow2();
      Mat A = v(a).m, B = v(b).m, Dm = v(d).m;
      bool ra = v(a).real, rb = v(b).real, rd = v(d).real, rr = ra && rb;
      Mat S1 = Mat::one(s.x);
      auto inv = [&] { return 1.0 / p.x; }();
      // what an exception leaves in the target is unspecified
      v(d).junk = true;
      Mat r;
      bool rl = rr;
      switch (f) {
        case 0: o[d] = o[a] + o[b]; r = A + B; break;
        case 1: o[d] = o[a] - o[b]; r = A - B; break;
        case 2: o[d] = o[a] * o[b]; r = A * B; break;
        case 3: o[d] += o[a]; r = Dm + A; rl = rd && ra; break;
        case 4: o[d] -= o[a]; r = Dm - A; rl = rd && ra; break;
        case 5: o[d] *= o[a]; r = Dm * A; rl = rd && ra; break;
        case 6: o[d] = -o[a]; r = cd(-1) * A; rl = ra; break;
        case 7: o[d] = o[a] + s.s(); r = A + S1; rl = ra && s.real; break;
        case 8: o[d] = s.s() + o[a]; r = A + S1; rl = ra && s.real; break;
        case 9: o[d] = o[a] - s.s(); r = A - S1; rl = ra && s.real; break;
        case 10: o[d] = s.s() - o[a]; r = S1 - A; rl = ra && s.real; break;
        case 11: o[d] = o[a] * s.s(); r = s.x * A; rl = ra && s.real; break;
        case 12: o[d] = s.s() * o[a]; r = s.x * A; rl = ra && s.real; break;
        case 13: o[d] = o[a] / p.s(); r = inv * A; rl = ra && p.real; break;
        case 14: o[d] = dagger(o[a]); r = dag(A); rl = ra; break;
        case 15: o[d] = O(s.s()); r = S1; rl = s.real; break;
        case 16: o[d] += s.s(); r = Dm + S1; rl = rd && s.real; break;
        case 17: o[d] -= s.s(); r = Dm - S1; rl = rd && s.real; break;
        case 18: o[d] *= s.s(); r = s.x * Dm; rl = rd && s.real; break;
        case 19: o[d] /= p.s(); r = inv * Dm; rl = rd && p.real; break;
        case 20: o[d] = O(2.0 * o[a] - o[b] * o[a] + O(1.0)); r = cd(2) * A - B * A + Mat::one(1); break;
        case 21: o[d] = o[a] * o[b] - o[b] * o[a]; r = A * B - B * A; break;
        case 22: o[d] = o[a] + O(o[b]); r = A + B; break;
        case 23: o[d] = O(o[a]) - o[b]; r = A - B; break;
        case 24: o[d] = (o[a] + o[b]) - o[a]; r = B; break;
        case 25: o[d] = o[a] * 0.0; r = Mat{}; rl = true; break;
        case 26: { // the real parts of all coefficients
          auto t = terms(o[a], U);
          for (auto &x : t) x.c = x.c.real();
          o[d] = real(o[a]);
          r    = matrix_of(t);
          rl = true;
          break;
        }
        case 27: { // the imaginary parts
          auto t = terms(o[a], U);
          for (auto &x : t) x.c = x.c.imag();
          o[d] = imag(o[a]);
          r    = matrix_of(t);
          rl = true;
          break;
        }
        case 28: { // transformed coefficients, some of them to zero
          auto t  = terms(o[a], U);
          int cut = below(4);
          Mat m;
          for (auto &x : t)
            if ((int)x.w.size() != cut) m.add(x.w, x.c * (double)(x.w.size() + 1));
          o[d] = transform(o[a], [cut](triqs::operators::monomial_t const &w, S c) -> S { return (int)w.size() == cut ? S(0.0) : S(c * (double)(w.size() + 1)); });
          r    = m;
          rl = ra;
          break;
        }
        case 29: o[d] = o[d] * o[a] + o[d]; r = Dm * A + Dm; rl = rd && ra; break;
        case 30: o[d] += s.s() * o[d]; r = Dm + s.x * Dm; rl = rd && s.real; break;
        case 31: { // term by term
          O x;
          for (auto const &t : o[a]) x = x + O(t);
          o[d] = x;
          r    = A;
          rl = ra;
          break;
        }
        case 32: { // through the pairs that Python sees
          O x;
          for (auto t : o[a]) {
            std::pair<std::vector<std::pair<bool, indices_t>>, S> q = t;
            O y(q.second);
            for (auto const &l : q.first) y *= O::make_canonical(l.first, l.second);
            x += y;
          }
          o[d] = x;
          r    = A;
          rl = ra;
          break;
        }
        case 33: { // to another type of coefficients and back
          if constexpr (std::is_same_v<S, roc>) {
            Op<cd> x(o[a]);
            if (!(matrix_of(terms(x, U)) == A)) FAIL("value", "conversion to complex coefficients is wrong");
            o[d] = x;
            rl = false;
          } else {
            Op<roc> x(o[a]);
            if (!(matrix_of(terms(x, U)) == A)) FAIL("value", "conversion to coefficients of either type is wrong");
            Op<S> y;
            y    = x;
            o[d] = y;
            rl = ra;
          }
          r = A;
          break;
        }
        case 34: { // to real coefficients, refused if one is complex
          auto t = terms(o[a], U);
          if constexpr (std::is_same_v<S, roc>) {
            bool all = std::all_of(t.begin(), t.end(), [](auto &x) { return x.real; });
            std::optional<Op<double>> x;
            bool threw = false;
            try {
              x.emplace(o[a]);
            } catch (triqs::runtime_error const &) { threw = true; }
            if (threw == all) FAIL("convert", all ? "conversion of a real operator is refused" : "a complex operator is converted to a real one");
            if (x) {
              if (!(matrix_of(terms(*x, U)) == A)) FAIL("value", "conversion to real coefficients is wrong");
              o[d] = *x;
              r    = A;
              rl = true;
            } else {
              o[d] = o[a];
              r    = A;
              rl = ra;
            }
          } else {
            o[d] = o[a];
            r    = A;
            rl = ra;
          }
          break;
        }
        case 35: o[d] = o[a]; r = A; rl = ra; break;
        case 36: { // moved from and to
          O x  = std::move(o[a]);
          v(a).junk = true;
          o[d] = std::move(x);
          r    = A;
          rl = ra;
          if (a != d) o[a] = O{}, put(a, Mat{}, true);
          break;
        }
        case 37:
          if (a == d) return put(d, A, ra);
          {
            Val t = v(a);
            usable(d, code);
            using std::swap;
            swap(o[a], o[d]);
            v(a) = v(d);
            v(d) = t;
          }
          return;
        case 38: o[d] = o[a] - o[a] + o[b] * S(1.0); r = B; break;
        case 39: {
          O x = o[a];
          x -= x;
          if (!x.is_zero()) FAIL("value", "x -= x does not give zero");
          x = o[a];
          x += x;
          o[d] = x;
          r    = cd(2) * A;
          rl = ra;
          break;
        }
      }
      put(d, r, rl);
      sim::probe(str("expression %d", f).c_str());
    }

    // ------------------------------------------------------------- comparisons, tests, printing
    void op_cmp(int a, int b, uint64_t code) {
      usable(a, code);
      usable(b, code);
      seed = sim::mix(code, 3);
      Mat A = v(a).m, B = v(b).m;
      bool eq = A == B;
      auto const &x = o[a], &y = o[b];
      if ((x == y) != eq || (x != y) == eq) FAIL("compare", "the operators are %s, == says %d", eq ? "equal" : "different", (int)(x == y));
      if (x.is_zero() != A.zero()) FAIL("compare", "is_zero is wrong");
      // the largest coefficient of the difference decides
      auto coefs = [&](O const &z) {
        double c = 0;
        for (auto &t : terms(z, U)) c = std::max(c, std::abs(t.c));
        return c;
      };
      double c = coefs(x);
      if (x.is_almost_zero(c * 1.001 + 1e-9) != true || (c > 0 && x.is_almost_zero(c * 0.999))) FAIL("compare", "is_almost_zero does not know that the largest coefficient is %g", c);
      if (x.is_almost_zero() != A.zero()) FAIL("compare", "is_almost_zero is wrong");
      if (triqs::operators::is_op_hermitian(x) != (A == dag(A))) FAIL("compare", "is_op_hermitian is wrong");
      if (!triqs::operators::is_op_hermitian(x + dagger(x))) FAIL("compare", "x + dagger(x) is not Hermitian");
      double e   = coefs(x - y);
      bool threw = false;
      double tol = below(2) ? e * 1.001 + 1e-9 : e * 0.999;
      try {
        triqs::operators::assert_operators_are_close(x, y, tol);
      } catch (triqs::runtime_error const &) { threw = true; }
      if (threw != !(e <= tol)) FAIL("compare", "assert_operators_are_close with tolerance %g and difference %g is wrong", tol, e);
      sim::probe("comparisons");
    }
    void op_print(int a, uint64_t code) {
      usable(a, code);
      std::ostringstream os, ex;
      os << o[a];
      bool first = true;
      for (auto &t : terms(o[a], U)) {
        if (!first) ex << " + ";
        first = false;
        if constexpr (std::is_same_v<S, roc>) {
          if (t.real)
            ex << t.c.real();
          else
            ex << "(" << t.c.real() << (std::signbit(t.c.imag()) ? "" : "+") << t.c.imag() << "j)";
        } else if constexpr (std::is_same_v<S, double>)
          ex << t.c.real();
        else
          ex << t.c;
        for (auto &l : t.w) ex << "*c" << (l.dag ? "_dag" : "") << show(U[l.mode]);
      }
      if (first) ex << "0";
      if (os.str() != ex.str()) FAIL("print", "printed '%s', expected '%s'", os.str().c_str(), ex.str().c_str());
      sim::probe("printed");
    }

    // ------------------------------------------------------------- sets of fundamental operators
    std::vector<int> modes(O const &x) { // in the order of first appearance
      std::vector<int> r;
      for (auto &t : terms(x, U))
        for (auto &l : t.w)
          if (std::find(r.begin(), r.end(), l.mode) == r.end()) r.push_back(l.mode);
      return r;
    }
    void check_fops(fops_t const &f, std::vector<int> const &m) {
      if (f.size() != (int)m.size()) FAIL("fops", "the set has %d elements, expected %d", f.size(), (int)m.size());
      int i = 0;
      for (auto const &x : f) {
        if (i >= (int)m.size()) FAIL("fops", "an iteration does not end");
        if (x.linear_index != i || x.index != U[m[i]]) FAIL("fops", "element %d is %d %s, expected %s", i, x.linear_index, show(x.index).c_str(), show(U[m[i]]).c_str());
        ++i;
      }
      if (i != (int)m.size()) FAIL("fops", "an iteration meets %d of %d elements", i, (int)m.size());
      for (int k = 0; k < 4; ++k) {
        auto it   = std::find(m.begin(), m.end(), k);
        bool has  = it != m.end(), threw = false;
        int n     = -1;
        if (f.has_indices(U[k]) != has) FAIL("fops", "has_indices is wrong");
        try {
          n = f[U[k]];
        } catch (triqs::runtime_error const &) { threw = true; }
        if (threw == has) FAIL("fops", has ? "an element is not found" : "the number of a missing element is given");
        if (has && n != it - m.begin()) FAIL("fops", "the number of an element is %d, expected %d", n, (int)(it - m.begin()));
      }
      if (f.data().size() != m.size() || fops_t::data_t(f) != f.data()) FAIL("fops", "the data of the set are wrong");
      if (!(fops_t(f.data()) == f)) FAIL("fops", "a set made from the data is not equal");
    }
    fops_t make_fops(std::vector<int> const &m) {
      fops_t f;
      for (int k : m) f.insert_from_indices_t(U[k]);
      return f;
    }
    std::vector<int> shuffled(std::vector<int> m) {
      for (int i = (int)m.size() - 1; i > 0; --i) std::swap(m[i], m[below(i + 1)]);
      return m;
    }
    void op_fops(int a, uint64_t code) {
      usable(a, code);
      seed   = sim::mix(code, 4);
      auto m = modes(o[a]);
      check_fops(o[a].make_fundamental_operator_set(), m);
      auto q = shuffled({0, 1, 2, 3});
      q.resize(below(5));
      fops_t f = make_fops(q);
      for (int i = 0; i < below(3); ++i) f.insert_from_indices_t(U[q.empty() ? 0 : q[below((int)q.size())]]), q.empty() ? void(q.push_back(0)) : void();
      check_fops(f, q);
      fops_t h = f;
      if (!(h == f)) FAIL("fops", "a copy is not equal");
      if (q.size() > 1) {
        auto z = q;
        std::swap(z[0], z[1]);
        if (make_fops(z) == f) FAIL("fops", "sets in another order are equal");
      }
      // through a file
      try {
        h5::file file("fops", 'w');
        h5::group g{file};
        auto x = g.create_group("x");
        h5_write_attribute(x, "f", f);
        fops_t r = below(2) ? make_fops({3, 1}) : fops_t{};
        h5_read_attribute(x, "f", r);
        check_fops(r, q);
        if (!(r == f)) FAIL("fops", "the set read back is not equal");
      } catch (h5::io_error const &) {
      } catch (triqs::runtime_error const &e) { FAIL("unreadable", "a set written before is not read: %s", e.what()); } catch (std::logic_error const &e) {
        FAIL("unreadable", "a set written before is not read: %s", e.what());
      }
      // from the structure of a Green's function, from sizes
      auto check_made = [&](fops_t const &f, std::vector<indices_t> const &all, char const *what) {
        std::vector<indices_t> e; // every index once
        for (auto &x : all)
          if (std::find(e.begin(), e.end(), x) == e.end()) e.push_back(x);
        if (f.size() != (int)e.size() || f.data() != e) FAIL("fops", "the set of %s has %d elements or another order, expected %d", what, f.size(), (int)e.size());
        for (int k = 0; k < (int)e.size(); ++k)
          if (f[e[k]] != k) FAIL("fops", "%s: position %d of element %d", what, f[e[k]], k);
      };
      {
        triqs::gfs::gf_struct_t gs;
        std::vector<indices_t> e;
        for (int k = below(5); k > 0; --k) {
          std::string b = std::array{"up", "dn", "b", "0"}[below(4)]; // names may come twice
          gs.emplace_back(b, below(4));
          for (long l = 0; l < gs.back().second; ++l) e.push_back({b, l});
        }
        check_made(fops_t(gs), e, "a block structure");
      }
      {
        std::vector<int> v;
        std::vector<indices_t> e;
        for (int k = below(5); k > 0; --k) v.push_back(below(4));
        for (long i = 0; i < (long)v.size(); ++i)
          for (long l = 0; l < v[i]; ++l) e.push_back({i, l});
        check_made(fops_t(v), e, "block sizes");
      }
      {
        std::set<std::string> v;
        for (int k = below(4); k > 0; --k) v.insert(std::array{"q", "p", "10", "9"}[below(4)]);
        std::vector<indices_t> e;
        for (auto &x : v) e.push_back({x});
        check_made(fops_t(v), e, "a std::set of strings");
      }
      {
        std::set<long> v;
        for (int k = below(4); k > 0; --k) v.insert(std::array{-1l, 10l, 9l, 1l << 40}[below(4)]);
        std::vector<indices_t> e;
        for (auto x : v) e.push_back({x});
        check_made(fops_t(v), e, "a std::set of integers");
      }
      sim::probe("fundamental operator sets");
    }

    // ------------------------------------------------------------- coefficients taken out of operators
    void op_extract(int a, uint64_t code) {
      namespace ut = triqs::operators::utils;
      usable(a, code);
      seed      = sim::mix(code, 21);
      int kind  = below(5); // one-body, density-density, two-body, some of all, whatever is there
      O x;
      for (int i = 0; i < 1 + below(4); ++i) {
        auto s = num().s();
        int p = below(4), q = below(4), r = below(4), t = below(4);
        int what = kind == 3 ? below(5) : kind;
        if (what == 0) x += op_of<S>({{true, p}, {false, q}}, s, U);
        if (what == 1) x += op_of<S>({{true, p}, {true, q}, {false, q}, {false, p}}, s, U);
        if (what == 2) x += op_of<S>({{true, p}, {true, q}, {false, r}, {false, t}}, s, U);
        if (what == 3) x += op_of<S>({{true, p}, {true, q}}, s, U);
        if (what == 4) x += s;
      }
      if (kind == 4) x = o[a];
      auto t      = terms(x, U);
      bool ignore = below(2);
      auto shape  = [](Term const &y, char const *z) {
        if (y.w.size() != strlen(z)) return false;
        for (size_t i = 0; i < y.w.size(); ++i)
          if (y.w[i].dag != (z[i] == '+')) return false;
        return true;
      };
      auto one = [&](auto &y) { return shape(y, "+-"); };
      auto dd  = [&](auto &y) { return shape(y, "++--") && y.w[0].mode == y.w[3].mode && y.w[1].mode == y.w[2].mode; };
      auto two = [&](auto &y) { return shape(y, "++--"); };
      auto mode_of = [&](indices_t const &i) { return (int)(std::find(U.begin(), U.end(), i) - U.begin()); };
      // f gives the dictionary, rel says which terms belong in it, word makes the operator of a key
      auto judge = [&](char const *what, auto f, auto rel, auto word, double factor) {
        Mat m;
        bool others = false;
        for (auto &y : t)
          if (rel(y))
            m.add(y.w, y.c);
          else
            others = true;
        bool threw = false;
        try {
          auto d = f();
          Mat r;
          for (auto const &[k, c] : d) r.add(word(k), factor * value(c));
          if (!(r == m)) FAIL("extract", "%s gives other coefficients", what);
          // the matrix of the coefficients
          auto fm   = shuffled({0, 1, 2, 3});
          bool miss = below(4) == 0;
          if (miss) fm.resize(2);
          auto fo  = make_fops(fm);
          bool has = true;
          auto keys = [&](auto const &k) { return std::apply([&](auto const &...i) { return std::array<int, sizeof...(i)>{mode_of(i)...}; }, k); };
          for (auto const &[k, c] : d)
            for (int i : keys(k)) has = has && std::find(fm.begin(), fm.end(), i) != fm.end();
          bool threw2 = false;
          try {
            auto read = [&](auto const &M) {
              double sum = 0;
              for (auto const &[k, c] : d) {
                auto q = keys(k);
                auto v = std::apply([&](auto... i) { return cd(M((long)(std::find(fm.begin(), fm.end(), i) - fm.begin())...)); }, q);
                if (v != value(c)) FAIL("extract", "%s: an element of the matrix is (%g,%g), expected (%g,%g)", what, v.real(), v.imag(), value(c).real(), value(c).imag());
                sum += std::abs(v);
              }
              double all = 0;
              for (auto const &z : M) all += std::abs(cd(z));
              if (std::abs(all - sum) > 1e-9) FAIL("extract", "%s: the matrix has other elements", what);
              for (auto n : M.shape())
                if (n != (long)fm.size()) FAIL("extract", "%s: the shape of the matrix is wrong", what);
            };
            if constexpr (std::is_same_v<S, roc>) {
              auto V    = ut::dict_to_variant_matrix(d, fo);
              bool cplx = false;
              for (auto const &[k, c] : d) cplx = cplx || !c.is_real();
              if ((V.index() == 1) != cplx) FAIL("extract", "%s: the matrix is of the wrong type", what);
              std::visit(read, V);
            } else
              read(ut::dict_to_matrix<S>(d, fo));
          } catch (triqs::runtime_error const &) { threw2 = true; }
          if (threw2 == has) FAIL("extract", has ? "%s: the matrix is refused" : "%s: a matrix is made without one of the modes", what);
        } catch (triqs::runtime_error const &) { threw = true; }
        if (threw != (others && !ignore)) FAIL("extract", threw ? "%s is refused" : "%s: terms of another form are accepted", what);
      };
      judge("extract_h_dict", [&] { return ut::extract_h_dict(x, ignore); }, one, [&](auto const &k) { return Word{{true, mode_of(std::get<0>(k))}, {false, mode_of(std::get<1>(k))}}; }, 1);
      judge("extract_U_dict2", [&] { return ut::extract_U_dict2(x, ignore); }, dd, [&](auto const &k) {
        int i = mode_of(std::get<0>(k)), j = mode_of(std::get<1>(k));
        return Word{{true, i}, {false, i}, {true, j}, {false, j}};
      }, 0.5);
      judge("extract_U_dict4", [&] { return ut::extract_U_dict4(x, ignore); }, two, [&](auto const &k) {
        return Word{{true, mode_of(std::get<0>(k))}, {true, mode_of(std::get<1>(k))}, {false, mode_of(std::get<3>(k))}, {false, mode_of(std::get<2>(k))}};
      }, 0.5);
      for (int len : {2, 4, 3}) {
        auto y = len == 2 ? ut::quadratic_terms(x) : len == 4 ? ut::quartic_terms(x) : ut::filter_op(x, len);
        Mat m;
        for (auto &z : t)
          if ((int)z.w.size() == len) m.add(z.w, z.c);
        is(y, m, "the part with terms of one length");
      }
      op_blocks(x, t, ignore);
      sim::probe("coefficients extracted");
    }
    // matrices of one-body operators
    void op_blocks(O const &x, std::vector<Term> const &t, bool ignore) {
      namespace ut = triqs::operators::utils;
      int form     = below(5); // all blocks; other order; one missing; one too small; bigger ones
      triqs::gfs::gf_struct_t gs{{"up", 2}, {"dn", 2}};
      if (U[0] == universes[5][0]) gs = {{"b", 11}, {"a", 1}};
      if (form == 1) std::swap(gs[0], gs[1]);
      if (form == 2) gs.pop_back();
      if (form == 3) gs[1].second = 1;
      if (form == 4) gs = {{"x", 1}, {"dn", 3}, {"up", 2}};
      auto place = [&](int mode) -> std::pair<int, long> {
        auto const &u = U[mode];
        if (u.size() != 2 || !std::holds_alternative<std::string>(u[0]) || !std::holds_alternative<long>(u[1])) return {-1, 0};
        auto b = std::get<std::string>(u[0]);
        long i = std::get<long>(u[1]);
        if (i < 0) return {-1, 0};
        for (int k = 0; k < (int)gs.size(); ++k)
          if (gs[k].first == b && i < gs[k].second) return {k, i};
        return {-1, 0};
      };
      std::vector<std::map<std::pair<long, long>, cd>> ex(gs.size());
      bool others = false;
      Mat m;
      for (auto &y : t) {
        bool ok = y.w.size() == 2 && y.w[0].dag && !y.w[1].dag;
        if (ok) {
          auto p = place(y.w[0].mode), q = place(y.w[1].mode);
          ok     = p.first >= 0 && p.first == q.first;
          if (ok) ex[p.first][{p.second, q.second}] = y.c, m.add(y.w, y.c);
        }
        others = others || !ok;
      }
      bool threw = false;
      try {
        auto M = ut::block_matrix_from_op(x, gs, ignore);
        if (others && !ignore) FAIL("extract", "block_matrix_from_op: terms of another form are accepted");
        if (M.size() != (long)gs.size()) FAIL("extract", "block_matrix_from_op: %d blocks", (int)M.size());
        for (int b = 0; b < (int)gs.size(); ++b) {
          if (M[b].shape() != std::array<long, 2>{gs[b].second, gs[b].second}) FAIL("extract", "block_matrix_from_op: the shape of block %d is wrong", b);
          for (long i = 0; i < gs[b].second; ++i)
            for (long j = 0; j < gs[b].second; ++j) {
              auto it = ex[b].find({i, j});
              cd e    = it == ex[b].end() ? 0 : it->second;
              if (value(S(M[b](i, j))) != e) FAIL("extract", "block_matrix_from_op: element (%ld,%ld) of block %d is wrong", i, j, b);
            }
        }
        is(ut::op_from_block_matrix(M, gs), m, "the operator of a block matrix");
      } catch (triqs::runtime_error const &) { threw = true; } catch (std::bad_variant_access const &) {
        FAIL("extract", "block_matrix_from_op throws bad_variant_access");
      }
      if (threw && (!others || ignore)) FAIL("extract", "block_matrix_from_op refuses the operator");
      sim::probe("block matrices");
    }

    // ------------------------------------------------------------- real_or_complex numbers
    void op_roc(uint64_t code) {
      seed  = sim::mix(code, 6);
      cd x  = cd(dyadic[below(10)], below(2) ? 0 : dyadic[below(10)]), y = cd(dyadic[below(10)], below(2) ? 0 : dyadic[below(10)]);
      bool rx = x.imag() == 0 && below(2), ry = y.imag() == 0 && below(2);
      roc X = rx ? roc(x.real()) : roc(x), Y = ry ? roc(y.real()) : roc(y), Z = X;
      cd z  = x;
      bool rz = rx;
      int how = below(3); // the type of the other operand
      if (how == 1) y = y.real(), ry = true;
      if (how == 2) ry = false;
      switch (below(8)) {
#define ROC(n, OP, OPC)                                                                                                                              \
  case n:                                                                                                                                            \
    if (how == 0) Z = X OP Y;                                                                                                                        \
    if (how == 1) Z = X OP y.real();                                                                                                                 \
    if (how == 2) Z = X OP y;                                                                                                                        \
    z = x OP y, rz = rx && ry;                                                                                                                       \
    break;                                                                                                                                           \
  case n + 1:                                                                                                                                        \
    if (how == 0) Z = Y OP X;                                                                                                                        \
    if (how == 1) Z = y.real() OP X;                                                                                                                 \
    if (how == 2) Z = y OP X;                                                                                                                        \
    z = y OP x, rz = rx && ry;                                                                                                                       \
    break;                                                                                                                                           \
  case n + 8:                                                                                                                                        \
    if (how == 0) Z OPC Y;                                                                                                                           \
    if (how == 1) Z OPC y.real();                                                                                                                    \
    if (how == 2) Z OPC y;                                                                                                                           \
    z = x OP y, rz = rx && ry;                                                                                                                       \
    break;
        ROC(0, +, +=)
        ROC(2, -, -=)
        ROC(4, *, *=)
        ROC(6, /, /=)
      }
      if (!(std::abs(value(Z) - z) <= 1e-14 * std::abs(z))) FAIL("number", "(%g,%g) and (%g,%g) give (%g,%g), expected (%g,%g)", x.real(), x.imag(), y.real(), y.imag(), real(Z), imag(Z), z.real(), z.imag());
      if (Z.is_real() != rz) FAIL("number", "the result is %s, expected %s", Z.is_real() ? "real" : "complex", rz ? "real" : "complex");
      if (value(-Z) != -value(Z) || (-Z).is_real() != rz || value(conj(Z)) != std::conj(value(Z)) || conj(Z).is_real() != rz) FAIL("number", "minus or conj is wrong");
      if (abs(Z) != std::abs(value(Z)) || cd(Z) != value(Z)) FAIL("number", "abs or the conversion to complex is wrong");
      if (!(Z == Z) || Z != Z || Z == Z + 1.0 || !(Z != Z + 1.0)) FAIL("number", "comparison is wrong");
      bool threw = false;
      try {
        if (double(Z) != real(Z)) FAIL("number", "conversion to double is wrong");
      } catch (triqs::runtime_error const &) { threw = true; }
      if (threw == rz) FAIL("number", rz ? "a real number is not converted to double" : "a complex number is converted to double");
      if (is_zero(Z) != (z == 0.0) || !is_zero(Z - Z) || !is_zero(Z, abs(Z) * 1.01 + 1e-9) || (z != 0.0 && is_zero(Z, abs(Z) * 0.7))) FAIL("number", "is_zero is wrong");
      std::ostringstream os, ex;
      os << Z;
      if (rz)
        ex << real(Z);
      else
        ex << "(" << real(Z) << (std::signbit(imag(Z)) ? "" : "+") << imag(Z) << "j)";
      if (os.str() != ex.str()) FAIL("number", "printed %s, expected %s", os.str().c_str(), ex.str().c_str());
      sim::probe("real_or_complex numbers");
    }

    // ------------------------------------------------------------- storage
    template <typename T> void write_one(h5::group g, std::string const &key, Op<T> const &x, bool four, std::vector<int> const &fm) {
      if (four)
        h5_write(g, key, Op<roc>(x), make_fops(fm));
      else
        h5_write(g, key, x);
    }
    static Filed filed(std::vector<Term> t, std::vector<int> f) {
      bool all = std::all_of(t.begin(), t.end(), [](auto &x) { return x.real; });
      return {std::move(t), std::move(f), all};
    }
    static bool storable(std::vector<Term> const &t) {
      return std::all_of(t.begin(), t.end(), [](auto &x) { return x.w.size() <= 4; });
    }
    void op_save(int how, uint64_t code) {
      auto &w = W();
      for (int s = 0; s < 3; ++s) {
        usable(s, code + s);
        if (!storable(terms(o[s], U))) make_short(s, code + s);
      }
      seed = sim::mix(code, 8);
      w.tmp.clear();
      try {
        {
          h5::file file("ops.tmp", 'w');
          h5::group g{file};
          for (int s = 0; s < 3; ++s) {
            auto key  = "o" + std::to_string(s);
            auto t    = terms(o[s], U);
            bool four = (how >> s) & 1;
            auto fm   = modes(o[s]);
            if (four) {
              for (int k = 0; k < 4; ++k)
                if (below(2) && std::find(fm.begin(), fm.end(), k) == fm.end()) fm.push_back(k);
              fm = shuffled(fm);
            }
            if (how & 8) h5_write(g, key, o[(s + 1) % 3]); // overwritten
            write_one(g, key, o[s], four, fm);
            w.tmp[key] = filed(t, fm);
          }
          // one with another type of coefficients
          {
            auto const &x = o[0];
            auto t        = terms(x, U);
            if constexpr (std::is_same_v<S, double>) {
              Op<roc> y = Op<roc>(x) * roc(cd(0, 1));
              for (auto &z : t) z.c *= cd(0, 1), z.real = false;
              h5_write(g, "other", y);
            } else if constexpr (std::is_same_v<S, cd>) {
              Op<double> y;
              Mat m;
              std::vector<Term> tt;
              for (auto &z : t) {
                y += op_of<double>(z.w, z.c.real() + 8, U);
                tt.push_back({z.w, z.c.real() + 8, true});
              }
              t = tt;
              // coefficients may cancel: only zero ones vanish
              t.erase(std::remove_if(t.begin(), t.end(), [](auto &z) { return z.c == 0.0; }), t.end());
              h5_write(g, "other", y);
            } else {
              Op<cd> y = x;
              for (auto &z : t) z.real = false;
              h5_write(g, "other", y);
            }
            std::vector<int> fm;
            for (auto &z : t)
              for (auto &l : z.w)
                if (std::find(fm.begin(), fm.end(), l.mode) == fm.end()) fm.push_back(l.mode);
            w.tmp["other"] = filed(t, fm);
          }
        }
        h5::rename("ops.tmp", "ops");
        w.file  = w.tmp;
        w.valid = true;
        sim::probe("saved");
      } catch (h5::io_error const &) { sim::probe("saving failed with an I/O error"); } catch (triqs::runtime_error const &e) {
        if (!strstr(e.what(), "Error writing the many_body_operator")) FAIL("unwritable", "writing is refused: %s", e.what());
        sim::probe("saving failed with an I/O error");
      }
    }
    void make_short(int s, uint64_t code) {
      make(s, code);
      if (storable(terms(o[s], U))) return;
      seed = code;
      auto c = num();
      Word w{{true, below(4)}, {true, below(4)}, {false, below(4)}, {false, below(4)}};
      o[s] = op_of<S>(w, c.s(), U);
      Mat m;
      m.add(w, c.x);
      put(s, m, c.real);
    }
    void op_load(int d, int key, int how, uint64_t code) {
      auto &w = W();
      if (!w.valid) return;
      seed      = sim::mix(code, 2);
      auto k    = key == 3 ? std::string("other") : "o" + std::to_string(key);
      auto const &F = w.file.at(k);
      bool refused  = std::is_same_v<S, double> && !F.all_real;
      bool threw    = false;
      if (v(d).junk) o[d] = O{};
      v(d).junk = true;
      try {
        h5::file file("ops", 'r');
        h5::group g{file};
        if (how == 0)
          h5_read(g, k, o[d]);
        else if (how == 1)
          o[d] = h5::read<O>(g, k);
        else {
          auto f = below(2) ? make_fops({2, 0}) : fops_t{};
          if constexpr (std::is_same_v<S, roc>)
            h5_read(g, k, o[d], f);
          else {
            Op<roc> x;
            if (below(2)) x = Op<roc>::make_canonical(true, U[1]);
            h5_read(g, k, x, f);
            o[d] = x;
          }
          check_fops(f, F.fops);
        }
      } catch (h5::io_error const &) {
        sim::probe("loading failed with an I/O error");
        return;
      } catch (triqs::runtime_error const &e) {
        threw = true;
        if (strstr(e.what(), "Error reading the many_body_operator")) {
          sim::probe("loading failed with an I/O error");
          return;
        }
        if (!refused) FAIL("unreadable", "reading back what was written throws: %s", e.what());
      } catch (std::exception const &e) { FAIL("unreadable", "reading back what was written throws: %s", e.what()); }
      if (refused) {
        if (!threw) FAIL("convert", "an operator with complex coefficients is read into a real one");
        o[d] = O{};
        return put(d, Mat{}, true);
      }
      auto t = terms(o[d], U);
      if (std::is_same_v<S, roc>) {
        if (!(t == F.t)) FAIL("stored", "what is read differs from what was written (%d terms, %d written)", (int)t.size(), (int)F.t.size());
      }
      put(d, matrix_of(F.t), F.all_real);
      sim::probe("loaded");
    }
    void op_refuse(int a, uint64_t code) { // what cannot be stored
      seed = sim::mix(code, 11);
      Word w;
      auto q = shuffled({0, 1, 2, 3});
      for (int i = 0; i < 3; ++i) w.push_back({true, q[i]});
      for (int i = 0; i < 2 + below(2); ++i) w.push_back({false, q[i]});
      O x = op_of<S>(w, S(1.0), U);
      usable(a, code);
      bool threw = false;
      try {
        h5::file file("other", 'w');
        h5::group g{file};
        try {
          if (below(2)) {
            h5_write(g, "x", x);
          } else { // a mode that is not in the set
            auto m = modes(o[a]);
            if (m.empty()) return;
            auto z = terms(o[a], U);
            if (!storable(z)) return;
            m.erase(m.begin() + below((int)m.size()));
            h5_write(g, "x", Op<roc>(o[a]), make_fops(m));
          }
        } catch (triqs::runtime_error const &) { threw = true; }
        if (!threw) FAIL("not-refused", "an operator that cannot be stored is");
        if (g.has_key("x")) FAIL("not-refused", "a refused operator left something in the file");
      } catch (h5::io_error const &) {}
      sim::probe("refused to store");
    }

    // ------------------------------------------------------------- the process
    void go() {
      auto &P = sim::plan();
      U       = universes[sim::cfg("uni") % universes.size()];
      for (int s = 0; s < 3; ++s) {
        o[s]      = O{};
        v(s).junk = true;
      }
      if (sim::incarnation() > 0) {
        sim::probe("restart after a crash");
        where = "restart";
        for (int s = 0; s < 3; ++s) op_load(s, s, 0, s);
        check_all();
      }
      for (int &pc = W().pc; pc < (int)P.ops.size();) {
        int k          = pc++;
        auto const &op = P.ops[k];
        sim::step(100);
        int d = (int)op.arg(0) % 3, a = (int)op.arg(1) % 3, b = (int)op.arg(2) % 3;
        uint64_t code = (uint64_t)op.arg(3);
        long h        = op.arg(4);
        sim::trace("%s %d %d %d %ld %ld", op.name.c_str(), d, a, b, (long)code, h);
        where      = op.name + (op.name == "expr" ? " " + std::to_string(h % NEXPR) : "");
        bool armed = false;
        for (auto const &f : P.faults)
          if (f.kind == "alloc" && f.arg(0) == k) armed = true;
        if (armed) { // operands are made before
          usable(a, code);
          usable(b, code);
          usable(d, code);
          for (auto const &f : P.faults)
            if (f.kind == "alloc" && f.arg(0) == k) sim::fail_new(f.arg(1));
        }
        try {
          if (op.name == "make") make(d, code);
          else if (op.name == "expr") op_expr(d, a, b, (int)(h % NEXPR), code);
          else if (op.name == "cmp") op_cmp(a, b, code);
          else if (op.name == "print") op_print(a, code);
          else if (op.name == "fops") op_fops(a, code);
          else if (op.name == "roc") op_roc(code);
          else if (op.name == "extract") op_extract(a, code);
          else if (op.name == "save") op_save((int)(h % 16), code);
          else if (op.name == "load") op_load(d, (int)(h % 4), (int)(h / 4 % 3), code);
          else if (op.name == "refuse") op_refuse(a, code);
          sim::fail_new(0);
        } catch (std::bad_alloc const &) {
          sim::fail_new(0);
          if (!armed) throw;
          sim::fired("alloc");
          v(d).junk = true;
        }
        check_all();
      }
    }
  };
} // namespace

void ow::o01_generate(sim::Rng &g, sim::Plan &p) {
  p.cfg["scalar"] = g.range(0, 2);
  p.cfg["uni"]    = g.range(0, (int)universes.size() - 1);
  int n           = (int)g.range(2, 14);
  for (int i = 0; i < n; ++i) {
    double u         = g.uniform();
    char const *name = u < 0.1 ? "make" : u < 0.58 ? "expr" : u < 0.66 ? "cmp" : u < 0.7 ? "print" : u < 0.74 ? "fops" : u < 0.77 ? "roc" : u < 0.81 ? "extract" : u < 0.89 ? "save" : u < 0.97 ? "load" : "refuse";
    p.ops.push_back({0, name, {g.range(0, 2), g.range(0, 2), g.range(0, 2), (int64_t)(g.next() >> 24), g.range(0, 1 << 20)}});
    std::string s = name;
    if ((s == "expr" || s == "make") && g.chance(0.08)) p.faults.push_back({"alloc", {i, g.chance(0.6) ? g.range(1, 8) : g.range(1, 80)}});
  }
  int nf = (int)g.range(0, 2);
  for (int i = 0; i < nf; ++i) p.faults.push_back({"io", {0, g.chance(0.5) ? g.range(1, 20) : g.range(1, 120), g.range(0, 1)}});
}
void ow::o01_setup() {
  static World *w = nullptr;
  delete w;
  w            = new World;
  sim::world() = w;
}
void ow::o01_body() {
  switch (sim::cfg("scalar")) {
    case 0: return Proc<roc>{}.go();
    case 1: return Proc<double>{}.go();
    default: return Proc<cd>{}.go();
  }
}
