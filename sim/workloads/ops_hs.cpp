// O02: Hilbert spaces, states, operators acting on them, partitions into invariant subspaces.
// Real code: triqs/hilbert_space/*. Oracle: Fock states as bit patterns, maps from them to exact amplitudes.
#include "ops_common.hpp"
#include <triqs/hilbert_space/hilbert_space.hpp>
#include <triqs/hilbert_space/imperative_operator.hpp>
#include <triqs/hilbert_space/space_partition.hpp>
#include <triqs/hilbert_space/state.hpp>
using namespace ow;
namespace hsp = triqs::hilbert_space;

namespace {
  using Psi = std::map<uint64_t, cd>; // a state; no zeros
  void clean(Psi &p) {
    std::erase_if(p, [](auto &x) { return x.second == 0.0; });
  }
  bool fits(Psi const &p) {
    for (auto &[f, c] : p)
      if (std::abs(c.real()) > 4096 || std::abs(c.imag()) > 4096 || std::floor(c.real() * 4096) != c.real() * 4096 || std::floor(c.imag() * 4096) != c.imag() * 4096) return false;
    return true;
  }
  struct Slot {
    Psi p;
    int sp    = 0; // which subspace (of those of the kind)
    bool junk = true;
  };
  struct World {
    int pc = 0;
    Slot s[3];
  };
  World &W() { return *static_cast<World *>(sim::world()); }
  static const double dyadic[] = {1, -1, 2, 0.5, -0.5, 1.5, -2, 0.25, 3, -0.75};
  struct Wop { // an operator of the model
    std::vector<std::pair<Word, cd>> t;
    int dn = 0; // change of the number of active particles (if definite)
    bool off = false; // its coefficients were updated to zero
    std::vector<std::pair<Word, cd>> before; // its terms before that
    std::vector<cd> coefs;                   // the coefficients of the real one before that
  };

  template <bool Sub, typename S, bool Map> struct Proc {
    using HS    = std::conditional_t<Sub, hsp::sub_hilbert_space, hsp::hilbert_space>;
    using State = hsp::state<HS, S, Map>;
    using Imp   = hsp::imperative_operator<HS, S, false>;
    using MImp  = hsp::imperative_operator<HS, S, true>;

    int n;                       // modes
    std::vector<indices_t> U;    // labels
    std::vector<int> where_;     // label -> position in the set
    fops_t fops;
    std::vector<int> active;     // positions that change (all of them in the full space)
    uint64_t frozen = 0;         // occupation of the others
    hsp::hilbert_space full;
    std::vector<hsp::sub_hilbert_space> subs;
    std::vector<std::vector<uint64_t>> subs_f; // their Fock states
    std::vector<int> npart;                    // particles in each
    std::vector<Wop> ops;
    std::vector<Imp> imp;
    State st[3];

    uint64_t seed = 0;
    uint64_t rnd() { return seed = sim::mix(seed, 77); }
    int below(int k) { return (int)(rnd() % (uint64_t)k); }
    cd num() {
      double re = dyadic[below(10)], im = dyadic[below(10)];
      if (std::is_same_v<S, double>) return re;
      return below(3) == 0 ? cd(re) : below(2) ? cd(0, im) : cd(re, im);
    }
    S sc(cd x) {
      if constexpr (std::is_same_v<S, double>)
        return x.real();
      else
        return x;
    }
    cd pow2() {
      double x = std::array{1., -1., 2., 0.5, -2., 4.}[below(6)];
      return std::is_same_v<S, double> || below(2) ? cd(x) : cd(0, x);
    }
    Slot &m(int i) { return W().s[i]; }
    HS const &hs(int sp) {
      if constexpr (Sub)
        return subs[sp];
      else
        return full;
    }
    int dim(int sp) { return Sub ? (int)subs_f[sp].size() : 1 << n; }
    uint64_t fock(int sp, int i) { return Sub ? subs_f[sp][i] : (uint64_t)i; }
    auto pos() {
      return [this](int l) { return where_[l]; };
    }

    // ------------------------------------------------------------- operators
    Wop random_op(int terms, int dn, bool definite) {
      Wop r;
      r.dn = dn;
      auto lab = [&] { // a label whose position is active
        int p = active[below((int)active.size())];
        return (int)(std::find(where_.begin(), where_.end(), p) - where_.begin());
      };
      for (int k = 0; k < terms; ++k) {
        Word w;
        if (definite) {
          int pairs = below(3);
          if (pairs == 0 && dn == 0) pairs = 1;
          for (int i = 0; i < pairs; ++i) w.push_back({true, lab()}), w.push_back({false, lab()});
          for (int i = 0; i < std::abs(dn); ++i) w.push_back({dn > 0, lab()});
          for (int i = (int)w.size() - 1; i > 0; --i) std::swap(w[i], w[below(i + 1)]);
        } else {
          int len = below(5);
          for (int i = 0; i < len; ++i) w.push_back({below(2) == 0, lab()});
        }
        r.t.push_back({w, num()});
      }
      return r;
    }
    Op<S> real_op(Wop const &o) {
      Op<S> r;
      for (auto &[w, c] : o.t) r += op_of<S>(w, sc(c), U);
      return r;
    }
    Psi apply(Wop const &o, Psi const &p) {
      Psi r;
      for (auto &[w, c] : o.t)
        for (auto &[f, a] : p) {
          uint64_t g = f;
          if (int s = act(w, g, pos())) r[g] += double(s) * (a * c);
        }
      clean(r);
      return r;
    }

    // ------------------------------------------------------------- checks
    Psi read(State const &x, int sp) {
      Psi r;
      int k = 0;
      foreach (x, [&](auto i, S a) {
        ++k;
        if ((int64_t)i < 0 || (int64_t)i >= dim(sp)) FAIL("state", "a state has an amplitude with index %ld", (long)i);
        auto f = fock(sp, (int)i);
        if (r.count(f)) FAIL("state", "an amplitude is met twice");
        if (cd(a) != 0.0) r[f] = a;
      })
        ;
      if (!Map && k != dim(sp)) FAIL("state", "a state has %d amplitudes in a space of dimension %d", k, dim(sp));
      return r;
    }
    void same(State const &x, int sp, Psi const &p, char const *what) {
      if (&x.get_hilbert() != &hs(sp)) FAIL("state", "%s is in another space", what);
      if (x.size() != dim(sp)) FAIL("state", "%s has size %d, expected %d", what, x.size(), dim(sp));
      auto r = read(x, sp);
      if (r == p) return;
      for (auto &[f, a] : p)
        if (!r.count(f) || r[f] != a)
          FAIL("state", "%s: the amplitude of |%lx> is (%g,%g), expected (%g,%g)", what, (long)f, r.count(f) ? r[f].real() : 0., r.count(f) ? r[f].imag() : 0., a.real(), a.imag());
      for (auto &[f, a] : r)
        if (!p.count(f)) FAIL("state", "%s: the amplitude of |%lx> is (%g,%g), expected 0", what, (long)f, a.real(), a.imag());
    }
    void check_all() {
      for (int s = 0; s < 3; ++s)
        if (!m(s).junk) {
          same(st[s], m(s).sp, m(s).p, "the state");
          sim::state(sim::mix(m(s).p.size(), sim::mix(m(s).sp, dim(m(s).sp))));
        }
    }
    void make(int d, int sp, uint64_t code) {
      seed      = sim::mix(code, 31);
      m(d).junk = true;
      Psi p;
      int i = below(dim(sp));
      st[d] = below(2) ? State(hs(sp), i) : State(hs(sp));
      if (read(st[d], sp).size() > 0) p[fock(sp, i)] = 1;
      int k = below(4);
      for (int q = 0; q < k; ++q) {
        i     = below(dim(sp));
        auto c = num();
        st[d](i)      = sc(c);
        p[fock(sp, i)] = c;
      }
      clean(p);
      m(d) = {p, sp, false};
    }
    void usable(int s, uint64_t code) {
      if (m(s).junk || !fits(m(s).p)) make(s, (int)(sim::mix(code, s) % (Sub ? subs.size() : 1)), code + s);
    }

    // ------------------------------------------------------------- operations on states
    static constexpr int NF = 20;
    void op_expr(int d, int a, int b, int f, uint64_t code) {
      usable(a, code);
      usable(b, code);
      if (m(a).sp != m(b).sp) make(b, m(a).sp, code);
      int sp    = m(a).sp;
      bool onto = f >= 8 && f <= 12;
      if (onto && (m(d).junk || m(d).sp != sp || !fits(m(d).p))) make(d, sp, code + 9);
      if (m(a).sp != sp || m(b).sp != sp) return;
      Psi A = m(a).p, B = m(b).p, Dp = m(d).p, r;
      seed  = sim::mix(code, 17);
      cd x = num(), p = pow2();
      auto lin = [](cd u, Psi const &P, cd w, Psi const &Q) {
        Psi R;
        for (auto &[f, c] : P) R[f] += u * c;
        for (auto &[f, c] : Q) R[f] += w * c;
        clean(R);
        return R;
      };
      m(d).junk = true;
      switch (f % NF) {
        case 0: st[d] = st[a] + st[b]; r = lin(1, A, 1, B); break;
        case 1: st[d] = st[a] - st[b]; r = lin(1, A, -1, B); break;
        case 2: st[d] = sc(x) * st[a]; r = lin(x, A, 0, {}); break;
        case 3: st[d] = st[a] * sc(x); r = lin(x, A, 0, {}); break;
        case 4: st[d] = st[a] / sc(p); r = lin(1.0 / p, A, 0, {}); break;
        case 5: st[d] = sc(x) * st[a] + sc(p) * st[b]; r = lin(x, A, p, B); break;
        case 6: st[d] = make_zero_state(st[a]); break;
        case 7: st[d] = st[a]; r = A; break;
        case 8: st[d] += st[a]; r = lin(1, Dp, 1, A); break;
        case 9: st[d] -= st[a]; r = lin(1, Dp, -1, A); break;
        case 10: st[d] *= sc(x); r = lin(x, Dp, 0, {}); break;
        case 11: st[d] /= sc(p); r = lin(1.0 / p, Dp, 0, {}); break;
        case 12: st[d] -= sc(x) * st[a]; r = lin(1, Dp, -x, A); break;
        case 13: {
          State t = st[a];
          t += t;
          t -= st[a];
          st[d] = t;
          r     = A;
          break;
        }
        case 14: {
          State t = std::move(st[a]);
          m(a).junk = true;
          st[d] = std::move(t);
          r     = A;
          break;
        }
        case 15: {
          State t = st[a];
          t -= t;
          st[d] = t;
          break;
        }
        case 16: {
          if (a == d) {
            r = A;
            break;
          }
          if (m(d).p.empty() && Dp.empty()) {}
          std::swap(st[a], st[d]);
          std::swap(m(a), m(d));
          m(d).junk = false;
          m(a).junk = true;
          return;
        }
        default: { // an amplitude
          st[d] = st[a];
          r     = A;
          int i = below(dim(sp));
          st[d](i) = sc(x);
          r[fock(sp, i)] = x;
          if (cd(st[d](i)) != x) FAIL("state", "an amplitude just set reads differently");
          clean(r);
        }
      }
      m(d) = {r, sp, false};
      sim::probe("state expressions");
    }
    void op_dot(int a, int b, uint64_t code) {
      usable(a, code);
      usable(b, code);
      if (m(a).sp != m(b).sp) make(b, m(a).sp, code);
      if (m(a).sp != m(b).sp) return;
      cd e = 0;
      for (auto &[f, c] : m(a).p)
        if (auto it = m(b).p.find(f); it != m(b).p.end()) e += std::conj(c) * it->second;
      cd r = dot_product(st[a], st[b]);
      if (r != e) FAIL("state", "the scalar product is (%g,%g), expected (%g,%g)", r.real(), r.imag(), e.real(), e.imag());
      // printing: all amplitudes with their Fock states, in any order
      std::ostringstream os;
      os << st[a];
      auto s     = os.str();
      size_t len = 0;
      for (auto &[f, c] : read(st[a], m(a).sp)) { // (those of the state, for the signs of their zeros)
        std::ostringstream t;
        if constexpr (std::is_same_v<S, double>)
          t << " +(" << c.real() << ")|" << f << ">";
        else
          t << " +(" << c << ")|" << f << ">";
        if (s.find(t.str()) == std::string::npos) FAIL("print", "printed '%s', without '%s'", s.c_str(), t.str().c_str());
        len += t.str().size();
      }
      if (m(a).p.empty() ? s != "0" : s.size() != len) FAIL("print", "printed '%s'", s.c_str());
      sim::probe("scalar products");
    }
    void op_apply(int d, int s, uint64_t code) {
      usable(s, code);
      seed      = sim::mix(code, 41);
      int k     = below((int)ops.size());
      int sp    = m(s).sp;
      Psi P     = m(s).p;
      m(d).junk = true;
      if constexpr (Sub) if (ops[k].dn != 0) { // to another subspace, if there is one
        std::vector<int> map;
        for (int i = 0; i < (int)subs.size(); ++i) {
          auto it = std::find(npart.begin(), npart.end(), npart[i] + ops[k].dn);
          map.push_back(it == npart.end() ? -1 : (int)(it - npart.begin()));
        }
        // the map is over the indices of the spaces
        std::vector<int> by_index(map.size());
        for (int i = 0; i < (int)subs.size(); ++i) by_index[subs[i].get_index()] = map[i];
        MImp op(real_op(ops[k]), fops, by_index, &subs);
        auto r  = op(st[s]);
        int to  = map[sp];
        auto R  = apply(ops[k], P);
        if (to == -1) {
          if (!R.empty()) sim::harness_error("the model leaves the spaces");
          m(s).junk = m(s).junk || s == d;
          return;
        }
        same(r, to, R, "the image");
        st[d] = r;
        m(d)  = {R, to, false};
        sim::probe("applied between subspaces");
        return;
      }
      if (below(3) == 0) { // another one made of the same operator
        Imp op(real_op(ops[k]), fops);
        auto x = op(st[s]);
        same(x, sp, apply(ops[k], P), "the image under a new operator");
      }
      auto r = imp[k](st[s]);
      auto R = apply(ops[k], P);
      if (!ops[k].off && imp[k].is_empty() != real_op(ops[k]).is_zero()) FAIL("operator", "is_empty is wrong");
      same(r, sp, R, "the image");
      same(st[s], sp, P, "the state acted on");
      st[d] = std::move(r);
      m(d)  = {R, sp, false};
      sim::probe("applied");
    }
    void op_update(uint64_t code) {
      seed  = sim::mix(code, 51);
      int k = below((int)ops.size());
      if (ops[k].off) { // what it was
        size_t i = 0;
        auto &v  = ops[k].coefs;
        imp[k].update([&](S &x) {
          if (x != S(0)) FAIL("operator", "a coefficient updated to zero is another number");
          if (i < v.size()) {
            if constexpr (std::is_same_v<S, double>)
              x = v[i].real();
            else
              x = v[i];
          }
          ++i;
        });
        if (i != v.size()) FAIL("operator", "an update meets %d of %d coefficients", (int)i, (int)v.size());
        ops[k].t   = ops[k].before;
        ops[k].off = false;
        sim::probe("coefficients updated from zero");
        return;
      }
      if (below(3) == 0 && !(Sub && ops[k].dn)) {
        ops[k].coefs.clear();
        imp[k].update([&](S &x) {
          ops[k].coefs.push_back(x);
          x = 0;
        });
        ops[k].before = ops[k].t;
        ops[k].t.clear();
        ops[k].off = true;
        sim::probe("coefficients updated to zero");
        return;
      }
      double c = std::array{2., 0.5, -1.}[below(3)];
      for (auto &t : ops[k].t)
        if (std::abs(t.second * c) > 64 || std::abs(t.second * c) < 1. / 64) return;
      for (auto &t : ops[k].t) t.second *= c;
      if (Sub && ops[k].dn) return;
      imp[k].update([c](S &x) { x *= c; });
      sim::probe("coefficients updated");
    }
    // a projection onto a space made at random, and back
    void op_project(int d, int s, uint64_t code) {
      usable(s, code);
      seed   = sim::mix(code, 61);
      int sp = m(s).sp;
      hsp::sub_hilbert_space T(7);
      std::vector<uint64_t> fs;
      for (int i = 0; i < dim(sp) && (int)fs.size() < 40; ++i)
        if (below(2)) fs.push_back(fock(sp, i));
      if (Sub) { // states of other spaces
        for (int q = 0; q < 4; ++q) {
          auto &o = subs_f[below((int)subs_f.size())];
          auto f  = o[below((int)o.size())];
          if (std::find(fs.begin(), fs.end(), f) == fs.end()) fs.push_back(f);
        }
      }
      for (int i = (int)fs.size() - 1; i > 0; --i) std::swap(fs[i], fs[below(i + 1)]);
      for (auto f : fs) T.add_fock_state(f);
      check_sub(T, 7, fs);
      auto P = m(s).p;
      Psi R;
      for (auto &[f, c] : P)
        if (std::find(fs.begin(), fs.end(), f) != fs.end()) R[f] = c;
      auto test = [&](auto const &y, char const *what) {
        Psi got;
        if (&y.get_hilbert() != &T) FAIL("project", "%s: the projection is in another space", what);
        foreach (y, [&](auto i, S a) {
          if (cd(a) != 0.0) got[fs.at((size_t)i)] = a;
        })
          ;
        if (got != R) FAIL("project", "%s: the projection is wrong", what);
      };
      using S1 = hsp::state<hsp::sub_hilbert_space, S, true>;
      using S2 = hsp::state<hsp::sub_hilbert_space, S, false>;
      auto y1  = hsp::project<S1>(st[s], T);
      test(y1, "map");
      auto y2 = hsp::project<S2>(st[s], T);
      test(y2, "vector");
      m(d).junk = m(d).junk || d == s;
      Psi Q     = R;
      std::erase_if(Q, [&](auto &x) { // what is in the space we go back to
        if (!Sub) return false;
        auto &o = subs_f[sp];
        return std::find(o.begin(), o.end(), x.first) == o.end();
      });
      m(d).junk = true;
      if (below(2))
        st[d] = hsp::project<State>(y1, hs(sp));
      else
        st[d] = hsp::project<State>(y2, hs(sp));
      m(d) = {Q, sp, false};
      sim::probe("projected");
    }

    // ------------------------------------------------------------- spaces
    void check_sub(hsp::sub_hilbert_space const &x, int index, std::vector<uint64_t> const &f) {
      if (x.get_index() != index || x.size() != (int)f.size() || x.get_all_fock_states() != f) FAIL("space", "a subspace is wrong");
      for (int i = 0; i < (int)f.size(); ++i)
        if (!x.has_state(f[i]) || x.get_state_index(f[i]) != i || x.get_fock_state(i) != f[i]) FAIL("space", "state %d of a subspace is wrong", i);
      for (int k = 0; k < 6; ++k) {
        uint64_t g = rnd() >> below(64);
        if (x.has_state(g) != (std::find(f.begin(), f.end(), g) != f.end())) FAIL("space", "has_state(%lx) is wrong", (long)g);
      }
    }
    void op_space(uint64_t code) {
      seed = sim::mix(code, 71);
      for (int i = 0; i < (int)subs.size(); ++i) check_sub(subs[i], subs[i].get_index(), subs_f[i]);
      auto c = subs;
      if (!(c == subs)) FAIL("space", "copies of subspaces are not equal");
      int k = below((int)c.size());
      c[k].set_index(99);
      if (c[k] == subs[k] || !(c[k] != subs[k])) FAIL("space", "subspaces with other indices are equal");
      if (n <= 30) {
        hsp::hilbert_space h(fops);
        uint64_t N = uint64_t(1) << n;
        if (h.size() != (int64_t)N) FAIL("space", "the dimension is %d", h.size());
        for (int i = 0; i < 5; ++i) {
          uint64_t f = rnd() % N;
          if (!h.has_state(f) || h.get_state_index(f) != (int64_t)f || h.get_fock_state((int)f) != f) FAIL("space", "state %lx of the space is wrong", (long)f);
          std::set<indices_t> occ;
          for (int l = 0; l < n; ++l)
            if (f >> where_[l] & 1) occ.insert(U[l]);
          if (h.get_fock_state(fops, occ) != f) FAIL("space", "the Fock state of a set of occupied modes is %lx, expected %lx", (long)h.get_fock_state(fops, occ), (long)f);
        }
        if (h.has_state(N)) FAIL("space", "a state outside of the space is in it");
        int thrown = 0;
        try {
          h.get_state_index(N);
        } catch (triqs::runtime_error const &) { ++thrown; }
        try {
          h.get_fock_state(h.size());
        } catch (triqs::runtime_error const &) { ++thrown; }
        if (thrown != 2) FAIL("space", "a state outside of the space is not refused");
        if (!(h == hsp::hilbert_space(fops)) || h != hsp::hilbert_space(fops)) FAIL("space", "equal spaces differ");
        if (h == hsp::hilbert_space()) FAIL("space", "the space is equal to an empty one");
      }
      // modes that the set does not have
      auto un  = real_op(ops[0]) + Op<S>::make_canonical(true, {"nobody"});
      bool thr = false;
      try {
        Imp z(un, fops);
      } catch (triqs::runtime_error const &) { thr = true; }
      if (!thr) FAIL("operator", "an operator with a mode that is not in the set is accepted");
      sim::probe("spaces");
    }
    void op_store(uint64_t code) {
      seed = sim::mix(code, 81);
      try {
        h5::file file("hs", 'w');
        h5::group g{file};
        int k = below((int)subs.size());
        h5_write(g, "one", subs[k]);
        h5::write(g, "all", subs);
        hsp::sub_hilbert_space r(5);
        if (below(2)) r = subs[below((int)subs.size())];
        h5_read(g, "one", r);
        check_sub(r, subs[k].get_index(), subs_f[k]);
        if (!(r == subs[k])) FAIL("space", "a subspace read back is not equal");
        r.add_fock_state(~uint64_t(0) - 3);
        if (r.get_state_index(~uint64_t(0) - 3) != (int)subs_f[k].size()) FAIL("space", "a state added to a subspace read back has another index");
        std::vector<hsp::sub_hilbert_space> v;
        for (int q = below(4); q > 0; --q) v.push_back(subs[below((int)subs.size())]);
        h5::read(g, "all", v);
        if (v.size() != subs.size()) FAIL("space", "%d subspaces read back, expected %d", (int)v.size(), (int)subs.size());
        for (int i = 0; i < (int)v.size(); ++i) check_sub(v[i], subs[i].get_index(), subs_f[i]);
        if (n <= 30) {
          h5_write(g, "full", hsp::hilbert_space(fops));
          hsp::hilbert_space h;
          h5_read(g, "full", h);
          if (!(h == hsp::hilbert_space(fops))) FAIL("space", "a space read back is not equal");
        }
        sim::probe("spaces stored");
      } catch (h5::io_error const &) {}
    }

    // ------------------------------------------------------------- partitions
    struct DSU {
      std::vector<int> p;
      int find(int i) { return p[i] == i ? i : p[i] = find(p[i]); }
      bool join(int a, int b) {
        a = find(a), b = find(b);
        p[a] = b;
        return a != b;
      }
    };
    using Elems = std::map<std::pair<uint32_t, uint32_t>, cd>;
    Elems elements(Wop const &o, int N) {
      Elems e;
      for (int i = 0; i < N; ++i)
        for (auto &[f, c] : apply(o, Psi{{(uint64_t)i, 1}})) e[{i, (uint32_t)f}] = c;
      return e;
    }
    void op_part(uint64_t code) {
      if constexpr (!Sub) {
        if (n > 6) return;
        seed  = sim::mix(code, 91);
        int N = 1 << n;
        auto herm = [&](int terms) {
          Wop o = random_op(terms, 0, below(3) != 0);
          auto t = o.t;
          bool one_way = below(4) == 0; // not Hermitian: connections are met from one side only
          if (one_way) return o;
          for (auto &[w, c] : t) {
            Word v(w.rbegin(), w.rend());
            for (auto &l : v) l.dag = !l.dag;
            o.t.push_back({v, std::conj(c)});
          }
          if (below(2)) // correlated hopping: terms that cancel in some states
            for (auto &[w, c] : t) {
              int l  = below(n);
              Word v = w;
              v.push_back({true, l});
              v.push_back({false, l});
              o.t.push_back({v, -c});
              Word u(v.rbegin(), v.rend());
              for (auto &z : u) z.dag = !z.dag;
              o.t.push_back({u, std::conj(-c)});
            }
          return o;
        };
        Wop H = herm(below(4)), Y = below(3) ? Wop{} : herm(1 + below(2));
        bool store = below(2);
        State zero(full);
        using SP = hsp::space_partition<State, Imp>;
        SP first(zero, Imp(real_op(H), fops), store, Imp(real_op(Y), fops));
        SP sp = first;
        auto eh = elements(H, N), ey = elements(Y, N);
        DSU u;
        for (int i = 0; i < N; ++i) u.p.push_back(i);
        for (auto &e : {eh, ey})
          for (auto &[k, c] : e) u.join(k.first, k.second);
        // the partition is the one of the model
        auto check = [&](SP &x, DSU &v, char const *what) {
          std::map<int, int> to, from;
          for (int i = 0; i < N; ++i) {
            int a = v.find(i), b = (int)x.lookup_basis_state(i);
            if (to.emplace(a, b).first->second != b) FAIL("partition", "%s: states %d and another one of its subspace are apart", what, i);
            if (from.emplace(b, a).first->second != a) FAIL("partition", "%s: state %d is with one that is not of its subspace", what, i);
            if (b < 0 || b >= (int)x.n_subspaces()) FAIL("partition", "%s: number %d of a subspace", what, b);
          }
          if (to.size() != x.n_subspaces()) FAIL("partition", "%s: %d subspaces, expected %d", what, (int)x.n_subspaces(), (int)to.size());
          int k = 0;
          foreach (x, [&](int i, int b) {
            if (i != k++ || b != (int)x.lookup_basis_state(i)) FAIL("partition", "%s: foreach is wrong", what);
          })
            ;
          if (k != N) FAIL("partition", "%s: foreach meets %d states", what, k);
        };
        check(sp, u, "the invariant subspaces");
        auto elems = [&](auto const &got, Elems const &ex, char const *what) {
          if (got.size() != ex.size()) FAIL("partition", "%s: %d matrix elements, expected %d", what, (int)got.size(), (int)ex.size());
          for (auto &[k, c] : ex) {
            auto it = got.find(k);
            if (it == got.end() || cd(it->second) != c) FAIL("partition", "%s: the element from %d to %d is wrong", what, (int)k.first, (int)k.second);
          }
        };
        elems(sp.get_matrix_elements(), store ? eh : Elems{}, "the Hamiltonian");
        // merged for one operator after the other
        std::vector<Elems> merged;
        int k = below(n + 1);
        std::vector<int> order;
        for (int i = 0; i < n; ++i) order.push_back(i);
        for (int i = n - 1; i > 0; --i) std::swap(order[i], order[below(i + 1)]);
        for (int q = 0; q < k; ++q) {
          Wop C{{{{{true, order[q]}}, 1}}, 1}, A{{{{{false, order[q]}}, 1}}, -1};
          if (below(5) == 0) { // pair creation
            int l = below(n);
            C.t[0].first.push_back({true, l});
            A.t[0].first.insert(A.t[0].first.begin(), {false, l});
          }
          auto ec = elements(C, N), ea = elements(A, N);
          store   = below(2);
          auto r  = sp.merge_subspaces(Imp(real_op(C), fops), Imp(real_op(A), fops), store);
          elems(r.first, store ? ec : Elems{}, "the creation operator");
          elems(r.second, store ? ea : Elems{}, "the annihilation operator");
          merged = {ec, ea};
          // what has to be merged
          bool more = true;
          while (more) {
            more = false;
            for (auto &e : merged) {
              std::map<int, int> one;
              for (auto &[ij, c] : e) {
                auto [it, fresh] = one.emplace(u.find(ij.first), ij.second);
                if (!fresh && u.join(it->second, ij.second)) more = true;
              }
              if (more) break;
            }
          }
          check(sp, u, q == 0 ? "after merging" : "after merging again");
          sim::probe("merged subspaces");
        }
        // connections
        Wop o  = random_op(1 + below(3), 0, false);
        bool dg = below(2);
        auto mp = sp.find_mappings(Imp(real_op(o), fops), dg);
        std::set<std::pair<int, int>> ex;
        for (auto &[ij, c] : elements(o, N)) {
          int a = sp.lookup_basis_state(ij.first), b = sp.lookup_basis_state(ij.second);
          if (!dg || a == b) ex.insert({a, b});
        }
        if (ex.size() != mp.size()) FAIL("partition", "%d connections, expected %d", (int)mp.size(), (int)ex.size());
        for (auto &[a, b] : mp)
          if (!ex.count({(int)a, (int)b})) FAIL("partition", "a connection from %d to %d", (int)a, (int)b);
        sim::probe("partitions");
      }
    }

    // ------------------------------------------------------------- the process
    void go() {
      auto &P = sim::plan();
      seed    = sim::mix(sim::cfg("setup"), 1);
      n       = (int)sim::cfg("n");
      if (!Sub) n = Map ? std::min(n, 20) : std::min(n, 6);
      for (int i = 0; i < n; ++i) {
        if (sim::cfg("uni") % 2)
          U.push_back({i % 2 ? "b" : "a", (long)(i / 2)});
        else
          U.push_back({(long)i});
      }
      where_.resize(n);
      std::vector<int> perm;
      for (int i = 0; i < n; ++i) perm.push_back(i);
      if (sim::cfg("uni") / 2)
        for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[below(i + 1)]);
      for (int p = 0; p < n; ++p) {
        fops.insert_from_indices_t(U[perm[p]]);
        where_[perm[p]] = p;
      }
      // what moves
      std::vector<int> q = perm;
      for (int i = n - 1; i > 0; --i) std::swap(q[i], q[below(i + 1)]);
      int na = Sub || n > 6 ? std::min(n, 2 + below(4)) : n;
      active.assign(q.begin(), q.begin() + na);
      for (int p = 0; p < n; ++p)
        if (std::find(active.begin(), active.end(), p) == active.end() && below(2)) frozen |= uint64_t(1) << p;
      if (n <= 30) full = hsp::hilbert_space(fops);
      // subspaces with a number of active particles
      std::vector<std::vector<uint64_t>> byn(na + 1);
      for (int x = 0; x < 1 << na; ++x) {
        uint64_t f = frozen;
        for (int i = 0; i < na; ++i)
          if (x >> i & 1) f |= uint64_t(1) << active[i];
        byn[__builtin_popcount(x)].push_back(f);
      }
      std::vector<int> idx;
      for (int i = 0; i <= na; ++i) idx.push_back(i);
      for (int i = na; i > 0; --i) std::swap(idx[i], idx[below(i + 1)]);
      for (int i = 0; i <= na; ++i) {
        npart.push_back(idx[i]);
        subs_f.push_back(byn[idx[i]]);
        auto &f = subs_f.back();
        for (int k = (int)f.size() - 1; k > 0; --k) std::swap(f[k], f[below(k + 1)]);
        hsp::sub_hilbert_space s(i);
        for (auto x : f) s.add_fock_state(x);
        subs.push_back(s);
      }
      for (int k = 0; k < 3; ++k) ops.push_back(Sub ? random_op(1 + below(3), k == 0 ? 0 : below(5) - 2, true) : random_op(below(5), 0, false));
      for (auto &o : ops) imp.push_back(Sub && o.dn ? Imp() : Imp(real_op(o), fops));
      for (int s = 0; s < 3; ++s) m(s).junk = true;

      for (int &pc = W().pc; pc < (int)P.ops.size();) {
        int k          = pc++;
        auto const &op = P.ops[k];
        sim::step(100);
        int d = (int)op.arg(0) % 3, a = (int)op.arg(1) % 3, b = (int)op.arg(2) % 3;
        uint64_t code = (uint64_t)op.arg(3);
        long h        = op.arg(4);
        sim::trace("%s %d %d %d %ld %ld", op.name.c_str(), d, a, b, (long)code, h);
        where      = op.name;
        bool armed = false;
        for (auto const &f : P.faults)
          if (f.kind == "alloc" && f.arg(0) == k) {
            armed = true;
            usable(a, code);
            usable(b, code);
            sim::fail_new(f.arg(1));
          }
        try {
          if (op.name == "make") make(d, (int)(h % (Sub ? subs.size() : 1)), code);
          else if (op.name == "expr") op_expr(d, a, b, (int)(h % NF), code);
          else if (op.name == "dot") op_dot(a, b, code);
          else if (op.name == "apply") op_apply(d, a, code);
          else if (op.name == "update") op_update(code);
          else if (op.name == "project") op_project(d, a, code);
          else if (op.name == "space") op_space(code);
          else if (op.name == "store") op_store(code);
          else if (op.name == "part") op_part(code);
          sim::fail_new(0);
        } catch (std::bad_alloc const &) {
          sim::fail_new(0);
          if (!armed) throw;
          sim::fired("alloc");
          m(d).junk = true;
        }
        check_all();
      }
    }
  };
} // namespace

void ow::o02_generate(sim::Rng &g, sim::Plan &p) {
  p.cfg["kind"]  = g.range(0, 7);
  p.cfg["n"]     = g.chance(0.5) ? g.range(1, 6) : g.range(1, 64);
  p.cfg["uni"]   = g.range(0, 3);
  p.cfg["setup"] = (int64_t)(g.next() >> 24);
  int n          = (int)g.range(2, 12);
  for (int i = 0; i < n; ++i) {
    double u         = g.uniform();
    char const *name = u < 0.08 ? "make" : u < 0.3 ? "expr" : u < 0.4 ? "dot" : u < 0.65 ? "apply" : u < 0.7 ? "update" : u < 0.78 ? "project" : u < 0.83 ? "space" : u < 0.88 ? "store" : "part";
    p.ops.push_back({0, name, {g.range(0, 2), g.range(0, 2), g.range(0, 2), (int64_t)(g.next() >> 24), g.range(0, 1 << 20)}});
    std::string s = name;
    if ((s == "expr" || s == "apply" || s == "project") && g.chance(0.08)) p.faults.push_back({"alloc", {i, g.chance(0.6) ? g.range(1, 8) : g.range(1, 80)}});
  }
  if (g.chance(0.3)) p.faults.push_back({"io", {0, g.range(1, 60), 0}});
}
void ow::o02_setup() {
  static World *w = nullptr;
  delete w;
  w            = new World;
  sim::world() = w;
}
void ow::o02_body() {
  switch (sim::cfg("kind")) {
    case 0: return Proc<false, double, true>{}.go();
    case 1: return Proc<false, double, false>{}.go();
    case 2: return Proc<false, cd, true>{}.go();
    case 3: return Proc<false, cd, false>{}.go();
    case 4: return Proc<true, double, true>{}.go();
    case 5: return Proc<true, double, false>{}.go();
    case 6: return Proc<true, cd, true>{}.go();
    default: return Proc<true, cd, false>{}.go();
  }
}
