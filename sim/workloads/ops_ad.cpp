// O03: exact diagonalisation and what is computed from it.
// Real code: triqs/atom_diag/*, with the operators, Hilbert spaces and partitions under it, and the Green's functions it fills.
// Oracle: dense matrices over all Fock states; blocks from a fixpoint of sets; sums over poles in forms that do not overflow.
#include "ops_common.hpp"
#include <triqs/atom_diag/atom_diag.hpp>
#include <triqs/atom_diag/functions.hpp>
#include <triqs/atom_diag/gf.hpp>
using namespace ow;
namespace adn = triqs::atom_diag;

namespace {
  struct Dense { // a matrix
    int r = 0, c = 0;
    std::vector<cd> a;
    Dense() = default;
    Dense(int r, int c) : r(r), c(c), a((size_t)r * c) {}
    cd &operator()(int i, int j) { return a[(size_t)i * c + j]; }
    cd const &operator()(int i, int j) const { return a[(size_t)i * c + j]; }
    double big() const {
      double x = 0;
      for (auto &y : a) x = std::max(x, std::abs(y));
      return x;
    }
  };
  Dense mul(Dense const &x, Dense const &y) {
    Dense r(x.r, y.c);
    for (int i = 0; i < x.r; ++i)
      for (int k = 0; k < x.c; ++k)
        if (x(i, k) != 0.0)
          for (int j = 0; j < y.c; ++j) r(i, j) += x(i, k) * y(k, j);
    return r;
  }
  Dense adj(Dense const &x) {
    Dense r(x.c, x.r);
    for (int i = 0; i < x.r; ++i)
      for (int j = 0; j < x.c; ++j) r(j, i) = std::conj(x(i, j));
    return r;
  }
  using Sum = std::vector<std::pair<Word, cd>>; // an operator of the model

  struct Model { // what an atom was made of, and its blocks
    int kind = 0, nmin = 0, nmax = 99;
    std::vector<int> pos; // label -> position
    Sum H, hyb;
    std::vector<Sum> qn;
    std::vector<std::vector<uint64_t>> blocks; // sorted by their smallest state
    // filled from the atom when it was checked
    std::vector<int> of;                       // Fock state -> block of the atom, -1 if there is none
    bool junk = true;
  };
  struct Side {
    int pc = 0;
    Model m[3];
    bool saved = false;
    Model file;
    std::vector<std::vector<double>> en; // what a root broadcasts
    std::vector<std::vector<cd>> un;
  };
  struct World {
    Side s[4];
  };
  World &WW() { return *static_cast<World *>(sim::world()); }
  Side &W() { return WW().s[sim::rank()]; }

  template <bool C> struct Proc {
    using S      = std::conditional_t<C, cd, double>;
    using AD     = adn::atom_diag<C>;
    using matrix = typename AD::matrix_t;

    int n; // modes
    std::vector<indices_t> U;
    triqs::gfs::gf_struct_t gfst;
    std::vector<std::vector<int>> gfl; // block of the structure -> labels
    AD at[3];
    std::map<int, Dense> cache;

    uint64_t seed = 0;
    bool armed    = false; // memory may run out: nothing that is refused then, as an exception of TRIQS ends the program if there is no memory for it
    uint64_t rnd() { return seed = sim::mix(seed, 77); }
    int below(int k) { return (int)(rnd() % (uint64_t)k); }
    cd num() {
      static const double v[] = {1, -1, 2, 0.5, -0.5, 1.5, -2, 0.25, 3, -0.75};
      double re = v[below(10)], im = v[below(10)];
      if (!C) return re;
      return below(3) == 0 ? cd(re) : below(2) ? cd(0, im) : cd(re, im);
    }
    S sc(cd x) {
      if constexpr (C)
        return x;
      else
        return x.real();
    }
    Model &m(int i) { return W().m[i]; }
    int N() { return 1 << n; }

    // ------------------------------------------------------------- operators
    static Word dagw(Word const &w) {
      Word v(w.rbegin(), w.rend());
      for (auto &l : v) l.dag = !l.dag;
      return v;
    }
    Op<S> real_op(Sum const &o) {
      Op<S> r;
      for (auto &[w, c] : o) r += op_of<S>(w, sc(c), U);
      return r;
    }
    Dense dense(Sum const &o, Model const &M) {
      Dense d(N(), N());
      auto p = [&](int l) { return M.pos[l]; };
      for (auto &[w, c] : o)
        for (int f = 0; f < N(); ++f) {
          uint64_t g = f;
          if (int s = act(w, g, p)) d((int)g, f) += double(s) * c;
        }
      return d;
    }
    Word conserving(int pairs) {
      Word w;
      for (int i = 0; i < pairs; ++i) w.push_back({true, below(n)}), w.push_back({false, below(n)});
      for (int i = (int)w.size() - 1; i > 0; --i) std::swap(w[i], w[below(i + 1)]);
      return w;
    }
    void add_herm(Sum &o, Word const &w, cd c) {
      o.push_back({w, c});
      o.push_back({dagw(w), std::conj(c)});
      if (below(3) == 0) { // the same, where a mode is empty: terms cancel in some states
        int l  = below(n);
        Word v = w;
        v.push_back({true, l});
        v.push_back({false, l});
        o.push_back({v, -c});
        o.push_back({dagw(v), -std::conj(c)});
      }
    }
    Sum herm(int terms, bool cons) {
      Sum o;
      for (int k = 0; k < terms; ++k) {
        Word w;
        if (cons || below(4))
          w = below(3) == 0 ? Word{{true, below(n)}} : conserving(1 + below(2));
        else
          w = {{below(2) == 0, below(n)}, {below(2) == 0, below(n)}};
        if (w.size() == 1) w.push_back({false, w[0].mode}); // a level
        add_herm(o, w, num());
      }
      return o;
    }
    double qn_of(Sum const &q, Model const &M, int f) {
      double x = 0;
      auto p   = [&](int l) { return M.pos[l]; };
      for (auto &[w, c] : q) {
        uint64_t g = f;
        int s      = act(w, g, p);
        if (s && (int)g == f) x += s * c.real();
      }
      return x;
    }

    // ------------------------------------------------------------- the blocks of the model
    struct DSU {
      std::vector<int> p;
      int find(int i) { return p[i] == i ? i : p[i] = find(p[i]); }
      bool join(int a, int b) {
        a = find(a), b = find(b);
        p[std::max(a, b)] = std::min(a, b);
        return a != b;
      }
    };
    // false: the quantum numbers do not fit
    bool partition(Model &M) {
      DSU u;
      for (int i = 0; i < N(); ++i) u.p.push_back(i);
      auto join = [&](Dense const &d) {
        for (int i = 0; i < N(); ++i)
          for (int j = 0; j < N(); ++j)
            if (d(i, j) != 0.0) u.join(i, j);
      };
      std::vector<Dense> cs;
      for (int l = 0; l < n; ++l) cs.push_back(dense({{{{true, l}}, 1}}, M));
      for (int l = 0; l < n; ++l) cs.push_back(dense({{{{false, l}}, 1}}, M));
      if (M.kind == 3) {
        std::map<std::vector<double>, int> first;
        for (int i = 0; i < N(); ++i) {
          std::vector<double> v;
          for (auto &q : M.qn) v.push_back(qn_of(q, M, i));
          u.join(first.emplace(v, i).first->second, i);
        }
      } else {
        join(dense(M.H, M));
        join(dense(M.hyb, M));
      }
      bool fits = true;
      for (bool more = true; more;) {
        more = false;
        for (auto &c : cs) {
          std::map<int, int> one;
          for (int j = 0; j < N(); ++j)
            for (int i = 0; i < N(); ++i)
              if (c(i, j) != 0.0) {
                auto [it, fresh] = one.emplace(u.find(j), u.find(i));
                if (!fresh && u.find(it->second) != u.find(i)) {
                  fits = false;
                  if (M.kind != 3) more = u.join(it->second, i) || more;
                }
              }
        }
      }
      std::map<int, std::vector<uint64_t>> b;
      for (int i = 0; i < N(); ++i)
        if (int k = __builtin_popcount(i); k >= M.nmin && k <= M.nmax) b[u.find(i)].push_back(i);
      M.blocks.clear();
      for (auto &[k, v] : b) M.blocks.push_back(v);
      return M.kind != 3 || fits;
    }

    // ------------------------------------------------------------- an atom
    void make(int d, uint64_t code) {
      seed = sim::mix(code, 31);
      Model M;
      M.kind = below(5);
      if (M.kind == 4) M.kind = 0;
      std::vector<int> order;
      for (int i = 0; i < n; ++i) order.push_back(i);
      if (below(2))
        for (int i = n - 1; i > 0; --i) std::swap(order[i], order[below(i + 1)]);
      fops_t fops;
      M.pos.resize(n);
      for (int p = 0; p < n; ++p) fops.insert_from_indices_t(U[order[p]]), M.pos[order[p]] = p;
      int terms = below(5);
      M.H       = herm(terms, below(M.kind == 2 ? 8 : 4) != 0);
      if (M.kind == 1) M.hyb = herm(1 + below(2), false);
      if (M.kind == 1 && below(3) == 0) { // one of the directions alone connects as well
        Sum t;
        for (size_t i = 0; i < M.hyb.size(); i += 2) t.push_back(M.hyb[i]);
        M.hyb = t;
      }
      if (M.kind == 2) {
        M.nmin = below(n + 1);
        M.nmax = M.nmin + below(n + 1 - M.nmin);
      }
      if (M.kind == 3) {
        int k = below(3);
        for (int q = 0; q < k; ++q) {
          Sum o;
          for (int l = 0; l < n; ++l)
            if (double c = std::array{0., 1., 1., -1., 0.5, 1.}[below(6)]; c != 0) o.push_back({{{true, l}, {false, l}}, c});
          if (below(8) == 0) { // a square: may not fit
            Sum s;
            for (auto &[v, x] : o)
              for (auto &[w, y] : o) {
                Word z = v;
                z.insert(z.end(), w.begin(), w.end());
                s.push_back({z, x * y});
              }
            o = s;
          }
          M.qn.push_back(o);
        }
        // only what conserves them
        bool any = below(8) == 0;
        Sum H;
        for (size_t i = 0; i + 1 < M.H.size(); i += 2) {
          Sum t{M.H[i], M.H[i + 1]};
          auto D  = dense(t, M);
          bool ok = true;
          for (auto &q : M.qn)
            for (int f = 0; f < N() && ok; ++f)
              for (int g = 0; g < N(); ++g)
                if (D(g, f) != 0.0 && qn_of(q, M, f) != qn_of(q, M, g)) ok = false;
          if (ok || any) H.insert(H.end(), t.begin(), t.end());
        }
        M.H = H;
      }
      bool fits = partition(M);
      if (fits) { // the Hamiltonian must not leave a block
        auto D = dense(M.H, M);
        std::vector<int> of(N(), -1);
        for (int b = 0; b < (int)M.blocks.size(); ++b)
          for (auto f : M.blocks[b]) of[(int)f] = b;
        for (int f = 0; f < N(); ++f)
          for (int g = 0; g < N(); ++g)
            if (D(g, f) != 0.0 && of[f] != -1 && of[g] != of[f]) fits = false;
      }
      if (armed && !fits) return;
      m(d).junk = true;
      auto h    = real_op(M.H);
      try {
        if (M.kind == 0)
          at[d] = AD(h, fops);
        else if (M.kind == 1)
          at[d] = AD(h, real_op(M.hyb), fops);
        else if (M.kind == 2)
          at[d] = AD(h, fops, M.nmin, M.nmax);
        else {
          std::vector<Op<S>> q;
          for (auto &o : M.qn) q.push_back(real_op(o));
          at[d] = AD(h, fops, q);
        }
        if (!fits) FAIL("blocks", "quantum numbers for which an operator connects a block to several, or blocks that the Hamiltonian leaves, are accepted");
      } catch (triqs::runtime_error const &) {
        if (fits) throw;
        sim::probe("quantum numbers refused");
        return;
      }
      sim::probe(std::array{"auto-partition", "auto-partition with hybridization", "restricted numbers of particles", "quantum numbers"}[M.kind]);
      check(at[d], M, "an atom");
      M.junk = false;
      m(d)   = M;
    }
    void usable(int s, uint64_t code) {
      for (int k = 0; m(s).junk && k < 20; ++k) make(s, sim::mix(code + s, k));
      if (m(s).junk) sim::harness_error("no atom");
    }
    static void close(cd a, cd b, double tol, char const *what) {
      if (!(std::abs(a - b) <= tol)) FAIL("value", "%s is (%.15g,%.15g), expected (%.15g,%.15g)", what, a.real(), a.imag(), b.real(), b.imag());
    }
    static void close(Dense const &a, Dense const &b, double tol, char const *what) {
      if (a.r != b.r || a.c != b.c) FAIL("value", "%s is a matrix of %d by %d, expected %d by %d", what, a.r, a.c, b.r, b.c);
      for (int i = 0; i < a.r; ++i)
        for (int j = 0; j < a.c; ++j)
          if (!(std::abs(a(i, j) - b(i, j)) <= tol))
            FAIL("value", "%s: the element (%d,%d) is (%.15g,%.15g), expected (%.15g,%.15g)", what, i, j, a(i, j).real(), a(i, j).imag(), b(i, j).real(), b(i, j).imag());
    }
    template <typename X> static Dense get(X const &x) {
      Dense r((int)x.shape()[0], (int)x.shape()[1]);
      for (int i = 0; i < r.r; ++i)
        for (int j = 0; j < r.c; ++j) r(i, j) = x(i, j);
      return r;
    }

    // everything of an atom is in terms of its eigenvectors
    struct Eig {
      int K = 0;
      Dense V;                 // Fock state, eigenvector
      std::vector<double> E;   // of the eigenvectors
      std::vector<int> b0, bd; // first eigenvector of each block, how many
      Dense to(Dense const &O) const { return mul(adj(V), mul(O, V)); }
      int block(int k) const {
        int b = 0;
        while (k >= b0[b] + bd[b]) ++b;
        return b;
      }
    };
    Eig eig(AD const &a) {
      Eig e;
      for (int b = 0; b < a.n_subspaces(); ++b) {
        e.b0.push_back(e.K);
        e.bd.push_back(a.get_subspace_dim(b));
        e.K += e.bd.back();
      }
      e.V = Dense(N(), e.K);
      for (int b = 0; b < a.n_subspaces(); ++b) {
        auto fs = a.get_fock_states(b);
        auto &u = a.get_unitary_matrix(b);
        if ((int)fs.size() != e.bd[b] || u.shape()[0] != e.bd[b] || u.shape()[1] != e.bd[b]) FAIL("blocks", "block %d has %d states and a matrix of %ld by %ld", b, (int)fs.size(), u.shape()[0], u.shape()[1]);
        for (int i = 0; i < e.bd[b]; ++i)
          for (int k = 0; k < e.bd[b]; ++k) e.V((int)fs[i], e.b0[b] + k) = u(i, k);
        for (int k = 0; k < e.bd[b]; ++k) e.E.push_back(a.get_eigenvalue(b, k));
      }
      return e;
    }
    Dense sub(Dense const &O, Eig const &e, int to, int from) {
      Dense r(e.bd[to], e.bd[from]);
      for (int i = 0; i < r.r; ++i)
        for (int j = 0; j < r.c; ++j) r(i, j) = O(e.b0[to] + i, e.b0[from] + j);
      return r;
    }

    void check(AD const &a, Model &M, char const *what) {
      std::string w0 = where;
      where += std::string(", ") + what;
      // blocks
      int B = a.n_subspaces(), K = 0;
      if (B != (int)M.blocks.size()) FAIL("blocks", "%d blocks, expected %d", B, (int)M.blocks.size());
      M.of.assign(N(), -1);
      auto all = a.get_fock_states();
      if ((int)all.size() != B) FAIL("blocks", "Fock states of %d blocks", (int)all.size());
      for (int b = 0; b < B; ++b) {
        auto fs = a.get_fock_states(b);
        if (fs != all[b]) FAIL("blocks", "the Fock states of a block differ from those among all");
        auto srt = fs;
        std::sort(srt.begin(), srt.end());
        if (std::find(M.blocks.begin(), M.blocks.end(), srt) == M.blocks.end()) FAIL("blocks", "block %d, with %d states, is not one of those expected", b, (int)fs.size());
        for (auto f : fs) {
          if (M.of[(int)f] != -1) FAIL("blocks", "a Fock state is in two blocks");
          M.of[(int)f] = b;
        }
      }
      auto e    = eig(a);
      auto dims = a.get_subspace_dims();
      auto en   = a.get_energies();
      auto us   = a.get_unitary_matrices();
      if ((int)dims.size() != B || (int)en.size() != B || (int)us.size() != B) FAIL("blocks", "dimensions or energies of another number of blocks");
      // eigenvectors
      auto h     = dense(M.H, M);
      double scl = 1 + h.big() * N(), tol = 1e-11 * scl;
      auto one   = e.to([&] {
        Dense x(N(), N());
        for (int i = 0; i < N(); ++i) x(i, i) = 1;
        return x;
      }());
      auto he    = e.to(h);
      double low = 1e300;
      for (int k = 0; k < e.K; ++k) low = std::min(low, e.E[k]);
      double gs = a.get_gs_energy();
      for (int i = 0; i < e.K; ++i)
        for (int j = 0; j < e.K; ++j) {
          close(one(i, j), i == j ? 1 : 0, 1e-11, "a scalar product of eigenvectors");
          close(he(i, j), i == j ? e.E[i] + gs : 0, tol, "an element of the Hamiltonian between eigenvectors");
        }
      if (e.K && std::abs(low) > tol) FAIL("energy", "the lowest energy is %g after the shift", low);
      for (int b = 0; b < B; ++b) {
        if (dims[b] != e.bd[b] || (int)en[b].size() != dims[b]) FAIL("blocks", "the dimension of block %d is wrong", b);
        for (int k = 0; k < dims[b]; ++k) {
          if (en[b][k] != e.E[e.b0[b] + k] || a.flatten_subspace_index(b, k) != e.b0[b] + k) FAIL("energy", "energy %d of block %d differs, or its index", k, b);
          if (k && en[b][k] < en[b][k - 1]) FAIL("energy", "the energies of block %d are not in order", b);
        }
        if (b && en[b][0] < en[b - 1][0] - 1e-7) FAIL("energy", "the blocks are not in the order of their lowest energies");
        auto r = a.index_range_of_subspace(b);
        if (r.first() != e.b0[b] || r.last() != e.b0[b] + dims[b]) FAIL("blocks", "the range of block %d is wrong", b);
        close(get(us[b]), get(a.get_unitary_matrix(b)), 0, "a unitary matrix");
        K += dims[b];
      }
      if (a.get_full_hilbert_space_dim() != N()) FAIL("blocks", "the dimension of the space is wrong");
      // c, c dagger
      for (int l = 0; l < n; ++l)
        for (int dg = 0; dg < 2; ++dg) {
          auto d = dense({{{{dg == 1, l}}, 1}}, M);
          auto o = e.to(d);
          int p  = M.pos[l];
          for (int b = 0; b < B; ++b) {
            int to = -1;
            for (auto f : all[b])
              for (int g = 0; g < N(); ++g)
                if (d(g, (int)f) != 0.0 && M.of[g] != -1) to = M.of[g];
            int c = (int)(dg ? a.cdag_connection(p, b) : a.c_connection(p, b));
            auto &x = dg ? a.cdag_matrix(p, b) : a.c_matrix(p, b);
            if (to == -1 && c >= 0 && c < B && M.kind == 2) { // if its particles are not conserved: zeros, between what was left of two blocks
              if (x.is_empty() || Dense(get(x)).big() > 0) FAIL("connection", "c%s of mode %d takes block %d to %d, without a matrix of zeros", dg ? "_dag" : "", l, b, c);
              continue;
            }
            if (c != to) FAIL("connection", "c%s of mode %d takes block %d to %d, expected %d", dg ? "_dag" : "", l, b, c, to);
            if (to == -1) {
              if (!x.is_empty()) FAIL("connection", "c%s of mode %d has a matrix for block %d, which it does not connect", dg ? "_dag" : "", l, b);
            } else
              close(get(x), sub(o, e, to, b), 1e-11, "the matrix of a creation or annihilation operator");
          }
        }
      // vacuum
      auto const &v = a.get_vacuum_state();
      int vb        = M.of[0];
      if (a.get_vacuum_subspace_index() != vb) FAIL("vacuum", "the vacuum is in block %d, expected %d", (int)a.get_vacuum_subspace_index(), vb);
      if (v.size() != N()) FAIL("vacuum", "the vacuum has %ld components", (long)v.size());
      for (int k = 0; k < N(); ++k) close(cd(v(k)), k < e.K ? std::conj(e.V(0, k)) : 0, 1e-12, "a component of the vacuum");
      // what it was made of
      auto H = real_op(M.H);
      if (!(a.get_h_atomic() == H)) FAIL("made of", "the Hamiltonian differs");
      fops_t f;
      std::vector<int> lab(n);
      for (int l = 0; l < n; ++l) lab[M.pos[l]] = l;
      for (int p = 0; p < n; ++p) f.insert_from_indices_t(U[lab[p]]);
      if (!(a.get_fops() == f)) FAIL("made of", "the set of modes differs");
      // quantum numbers
      auto const &q = a.get_quantum_numbers();
      if (M.kind == 3) {
        if ((int)q.size() != B) FAIL("quantum numbers", "those of %d blocks", (int)q.size());
        // known finding: they are in the order in which the values were met, not in that of the blocks
        bool right = true, met = true;
        for (int b = 0; b < B; ++b) {
          if (q[b].size() != M.qn.size()) FAIL("quantum numbers", "block %d has %d of them", b, (int)q[b].size());
          for (int k = 0; k < (int)M.qn.size(); ++k) {
            right = right && std::abs(q[b][k] - qn_of(M.qn[k], M, (int)all[b][0])) < 1e-8;
            met   = met && std::abs(q[b][k] - qn_of(M.qn[k], M, (int)M.blocks[b][0])) < 1e-8;
          }
        }
        if (!right && (!met || sim::cfg("qnorder"))) FAIL(met ? "qn-order" : "quantum numbers", "those of the blocks are wrong%s", met ? ": they are in another order than the blocks" : "");
      } else if (!q.empty())
        FAIL("quantum numbers", "an atom made without them has some");
      sim::state(sim::mix(B, sim::mix(K, M.kind)));
      where = w0;
    }

    // ------------------------------------------------------------- operators in its eigenbasis
    Sum random_sum() {
      Sum o;
      int k = below(4);
      bool cons = below(2);
      for (int i = 0; i < k; ++i) {
        Word w;
        if (cons)
          w = conserving(below(3));
        else
          for (int q = below(4); q > 0; --q) w.push_back({below(2) == 0, below(n)});
        if (below(2))
          add_herm(o, w, num());
        else
          o.push_back({w, num()});
      }
      return o;
    }
    void op_matrix(int s, uint64_t code) {
      usable(s, code);
      seed      = sim::mix(code, 41);
      auto &a   = at[s];
      auto &M   = m(s);
      auto e    = eig(a);
      auto o    = random_sum();
      auto ro   = real_op(o);
      auto od   = dense(o, M);
      auto oe   = e.to(od);
      double sc = 1 + od.big() * N(), tol = 1e-11 * sc;
      // monomials, as they are in the operator
      Op<S> canon = ro;
      auto ts     = terms(canon, U);
      bool differ = false;
      std::vector<int> conn(e.b0.size(), -1);
      int k = 0;
      for (auto const &t : ro) {
        Word w = ts[k++].w;
        auto d = dense({{w, 1}}, M);
        auto x = e.to(d);
        for (int b = 0; b < (int)e.b0.size(); ++b) {
          int to = -1;
          for (int f = 0; f < N(); ++f)
            if (M.of[f] == b)
              for (int g = 0; g < N(); ++g)
                if (d(g, f) != 0.0 && M.of[g] != -1) to = M.of[g];
          auto [bb, mat] = a.get_matrix_element_of_monomial(t.monomial, b);
          if (bb != to) FAIL("monomial", "a monomial takes block %d to %d, expected %d", b, bb, to);
          if (to == -1) continue;
          close(get(mat), sub(x, e, to, b), 1e-11, "the matrix of a monomial");
          if (conn[b] == -1) conn[b] = to;
          if (conn[b] != to) differ = true;
        }
      }
      if (!(armed && differ)) try {
        auto x = a.get_op_mat(ro);
        if (differ) FAIL("operator", "an operator that takes a block to several has a block matrix");
        if (x.n_blocks() != (int)e.b0.size()) FAIL("operator", "a matrix of %d blocks", x.n_blocks());
        for (int b = 0; b < x.n_blocks(); ++b) {
          if (x.connection(b) != conn[b]) FAIL("operator", "an operator takes block %d to %ld, expected %d", b, (long)x.connection(b), conn[b]);
          if (conn[b] != -1) close(get(x.block_mat[b]), sub(oe, e, conn[b], b), tol, "the matrix of an operator");
        }
      } catch (triqs::runtime_error const &) {
        if (!differ) FAIL("operator", "an operator that takes every block to one has no block matrix");
      }
      // on a vector: the components beyond the blocks, if some are left out, have nothing to do with it
      using Vec = typename AD::full_hilbert_space_state_t;
      Vec v(N());
      std::vector<cd> y(e.K);
      for (int i = 0; i < N(); ++i) v(i) = this->sc(num());
      for (int i = 0; i < e.K; ++i)
        for (int j = 0; j < e.K; ++j) y[i] += oe(i, j) * cd(v(j));
      Vec r = adn::act<C>(ro, v, a);
      if (r.size() != N()) FAIL("act", "an image with %ld components", (long)r.size());
      for (int i = 0; i < N(); ++i) close(cd(r(i)), i < e.K ? y[i] : 0, tol * 4 * N(), "a component of an image");
      // mean values
      double beta = betas(below(6)), z = 0;
      for (auto x : e.E) z += std::exp(-beta * x);
      close(partition_function(a, beta), z, 1e-10 * z, "the partition function");
      auto rho = atomic_density_matrix(a, beta);
      if (rho.size() != e.b0.size()) FAIL("density", "a density matrix of %d blocks", (int)rho.size());
      cd tr = 0, ex = 0;
      for (int b = 0; b < (int)rho.size(); ++b) {
        Dense x(e.bd[b], e.bd[b]);
        for (int i = 0; i < e.bd[b]; ++i) x(i, i) = std::exp(-beta * e.E[e.b0[b] + i]) / z;
        close(get(rho[b]), x, 1e-11, "the density matrix");
      }
      if (below(3) == 0) // another one, not diagonal
        for (auto &x : rho)
          for (long i = 0; i < x.shape()[0]; ++i)
            for (long j = 0; j < x.shape()[1]; ++j) x(i, j) = this->sc(num());
      for (int b = 0; b < (int)rho.size(); ++b)
        for (int i = 0; i < e.bd[b]; ++i)
          for (int j = 0; j < e.bd[b]; ++j) ex += oe(e.b0[b] + i, e.b0[b] + j) * cd(rho[b](j, i));
      tr = trace_rho_op<C>(rho, ro, a);
      if (!C) ex = ex.real();
      close(tr, ex, tol * 8 * N(), "a mean value");
      if (rho.size() > 1 && !armed) {
        auto bad = rho;
        if (below(2))
          bad.pop_back();
        else
          bad[below((int)bad.size())] = matrix::zeros(77, 77);
        bool thrown = false;
        try {
          trace_rho_op<C>(bad, ro, a);
        } catch (triqs::runtime_error const &) { thrown = true; }
        if (!thrown) FAIL("density", "a density matrix of another shape is accepted");
      }
      sim::probe("operators in the eigenbasis");
    }
    static double betas(int k) { return std::array{0.5, 1., 3., 10., 50., 2000.}[k]; }

    void op_qn(int s, uint64_t code) {
      usable(s, code);
      seed    = sim::mix(code, 51);
      auto &a = at[s];
      auto &M = m(s);
      auto e  = eig(a);
      Sum o;
      switch (below(4)) {
        case 0: o = M.H; break;
        case 1:
          for (int l = 0; l < n; ++l) o.push_back({{{true, l}, {false, l}}, below(3) ? cd(1) : num().real()});
          break;
        case 2: o = herm(1, true); break;
        default:
          for (auto &[w, c] : M.H)
            for (auto &[v, d] : M.H) {
              Word z = w;
              z.insert(z.end(), v.begin(), v.end());
              o.push_back({z, c * d});
            }
      }
      auto od = dense(o, M), h = dense(M.H, M), hod = mul(h, od), odh = mul(od, h);
      bool comm = true;
      for (size_t i = 0; i < hod.a.size(); ++i)
        if (hod.a[i] != odh.a[i]) comm = false;
      auto ro    = real_op(o);
      auto oe    = e.to(od);
      double off = 0, tol = 1e-11 * (1 + od.big() * N());
      for (int i = 0; i < e.K; ++i)
        for (int j = 0; j < e.K; ++j)
          if (i != j) off = std::max(off, std::abs(oe(i, j)));
      for (int checked = 0; checked < 2; ++checked) {
        if (armed && (!comm || checked)) continue;
        try {
          auto q = checked ? quantum_number_eigenvalues_checked<C>(ro, a) : quantum_number_eigenvalues<C>(ro, a);
          if (!comm) FAIL("quantum numbers", "an operator that does not commute with the Hamiltonian is taken for a quantum number");
          if (checked && off > 1e-6) FAIL("quantum numbers", "an operator that is not diagonal (%g) is taken for a quantum number", off);
          if (q.size() != e.b0.size()) FAIL("quantum numbers", "values of %d blocks", (int)q.size());
          for (int b = 0; b < (int)q.size(); ++b) {
            if ((int)q[b].size() != e.bd[b]) FAIL("quantum numbers", "%d values of block %d", (int)q[b].size(), b);
            for (int i = 0; i < e.bd[b]; ++i) close(q[b][i], oe(e.b0[b] + i, e.b0[b] + i).real(), tol, "the value of a quantum number");
          }
          sim::probe(checked ? "checked quantum numbers" : "quantum numbers of eigenstates");
        } catch (triqs::runtime_error const &x) {
          if (comm && (!checked || off < 1e-15)) FAIL("quantum numbers", "an operator that commutes with the Hamiltonian is refused (off-diagonal %g): %s", off, x.what());
          sim::probe("no quantum number");
        }
      }
    }

    // ------------------------------------------------------------- Green's functions
    struct Pole {
      double e;
      cd r;
    };
    static cd at_tau(std::vector<Pole> const &p, double tau, double beta) {
      cd g = 0;
      for (auto &x : p) g -= x.r * (x.e > 0 ? std::exp(-tau * x.e) / (1 + std::exp(-beta * x.e)) : std::exp((beta - tau) * x.e) / (1 + std::exp(beta * x.e)));
      return g;
    }
    static cd at_z(std::vector<Pole> const &p, cd z) {
      cd g = 0;
      for (auto &x : p) g += x.r / (z - x.e);
      return g;
    }
    // exp(-x) i_l(x), l = 0..L: downwards
    static std::vector<double> bessel(int L, double x) {
      std::vector<double> r(L + 1);
      if (x < 1e-8) {
        r[0] = std::exp(-x);
        if (L > 0) r[1] = x / 3;
        return r;
      }
      int top = L + 40 + (int)std::min(x, 3000.0) / 1;
      double up = 0, cur = 1e-250, zero = 0;
      std::vector<double> v(L + 1);
      for (int l = top; l >= 0; --l) {
        double down = up + (2 * l + 3) / x * cur; // i_l from i_{l+1} = cur, i_{l+2} = up
        up = cur, cur = down;
        if (l <= L) v[l] = cur;
        if (cur > 1e200) {
          cur *= 1e-200, up *= 1e-200;
          for (int k = l; k <= L; ++k) v[k] *= 1e-200;
        }
        zero = cur;
      }
      double i0 = (1 - std::exp(-2 * x)) / (2 * x); // exp(-x) sinh(x)/x
      for (int l = 0; l <= L; ++l) r[l] = v[l] / zero * i0;
      return r;
    }
    void op_gf(int s, uint64_t code) {
      usable(s, code);
      seed        = sim::mix(code, 61);
      auto &a     = at[s];
      auto &M     = m(s);
      auto e      = eig(a);
      double beta = betas(below(6)), Z = 0;
      std::vector<char> ex(e.K);
      adn::excluded_states_t exc;
      if (below(2) && e.K)
        for (int k = below(4); k > 0; --k) {
          int i = below(e.K), b = e.block(i);
          ex[i] = 1;
          exc.push_back({b, i - e.b0[b]});
        }
      std::vector<double> w;
      for (auto x : e.E) w.push_back(std::exp(-beta * x)), Z += w.back();
      for (auto &x : w) x /= Z;
      std::vector<std::vector<std::vector<Pole>>> P(gfl.size()); // block, i*size+j
      for (size_t bl = 0; bl < gfl.size(); ++bl)
        for (int l1 : gfl[bl])
          for (int l2 : gfl[bl]) {
            auto c = e.to(dense({{{{false, l1}}, 1}}, M)), cdg = e.to(dense({{{{true, l2}}, 1}}, M));
            std::vector<Pole> p;
            for (int i = 0; i < e.K; ++i)
              for (int j = 0; j < e.K; ++j)
                if (!ex[i] && !ex[j]) {
                  cd r = (w[i] + w[j]) * c(i, j) * cdg(j, i);
                  if (std::abs(r) > 1e-17) p.push_back({e.E[j] - e.E[i], r});
                }
            P[bl].push_back(p);
          }
      double tol = 1e-10;
      auto lehm  = atomic_g_lehmann(a, beta, gfst, exc);
      if (lehm.size() != gfl.size()) FAIL("lehmann", "%d blocks", (int)lehm.size());
      for (size_t bl = 0; bl < gfl.size(); ++bl) {
        int d = (int)gfl[bl].size();
        if (lehm[bl].shape()[0] != d || lehm[bl].shape()[1] != d) FAIL("lehmann", "block %d has the wrong size", (int)bl);
        for (int i = 0; i < d; ++i)
          for (int j = 0; j < d; ++j) {
            std::vector<Pole> q;
            for (auto &[x, r] : lehm[bl](i, j)) q.push_back({x, r});
            for (cd z : {cd(0.3, 0.7), cd(-1.2, 1), cd(5, 0.4)}) close(at_z(q, z), at_z(P[bl][i * d + j], z), tol, "the Lehmann representation at a frequency");
          }
      }
      auto each = [&](auto const &g, char const *what, auto expected, double t) {
        if (g.size() != (int)gfl.size()) FAIL("gf", "%s has %d blocks", what, (int)g.size());
        for (int bl = 0; bl < (int)gfl.size(); ++bl) {
          int d = (int)gfl[bl].size();
          if (g.block_names()[bl] != gfst[bl].first || g[bl].target_shape()[0] != d || g[bl].target_shape()[1] != d) FAIL("gf", "block %d of %s has another name or size", bl, what);
          for (auto x : g[bl].mesh())
            for (int i = 0; i < d; ++i)
              for (int j = 0; j < d; ++j) {
                cd y = g[bl].data()(x.data_index(), i, j), z = expected(x, P[bl][i * d + j]);
                if (!(std::abs(y - z) <= t * (1 + std::abs(z))))
                  FAIL("gf", "%s: block %d, element (%d,%d), point %ld is (%.12g,%.12g), expected (%.12g,%.12g)", what, bl, i, j, (long)x.index(), y.real(), y.imag(), z.real(), z.imag());
              }
        }
      };
      int which = below(4), np = 1 + below(6);
      namespace tm = triqs::mesh;
      if (which == 0) {
        np += 1;
        auto f = [&](auto t, auto const &p) { return at_tau(p, double(t), beta); };
        each(atomic_g_tau(a, beta, gfst, np, exc), "G(tau)", f, tol);
        each(adn::atomic_g_tau<C>(lehm, gfst, tm::imtime{beta, triqs::gfs::Fermion, np}), "G(tau) from its Lehmann representation", f, tol);
      } else if (which == 1) {
        auto f = [&](auto iw, auto const &p) { return at_z(p, cd(0, (2 * iw.index() + 1) * M_PI / beta)); };
        each(atomic_g_iw(a, beta, gfst, np, exc), "G(iw)", f, tol * beta);
        each(adn::atomic_g_iw<C>(lehm, gfst, tm::imfreq{beta, triqs::gfs::Fermion, np}), "G(iw) from its Lehmann representation", f, tol * beta);
      } else if (which == 2) {
        np *= 3;
        auto f = [&](auto l, auto const &p) {
          cd g = 0;
          for (auto &x : p) {
            double y = beta * std::abs(x.e) / 2; // exp(-y) i_l / (exp(-y) cosh(y))
            auto b   = bessel((int)l.index(), y);
            g -= x.r * beta / 2 * std::sqrt(2 * l.index() + 1.) * b[l.index()] * 2. / (1 + std::exp(-2 * y)) * (l.index() % 2 && x.e > 0 ? -1. : 1.);
          }
          return g;
        };
        each(atomic_g_l(a, beta, gfst, np, exc), "G(l)", f, tol * beta);
        each(adn::atomic_g_l<C>(lehm, gfst, tm::legendre{beta, triqs::gfs::Fermion, np}), "G(l) from its Lehmann representation", f, tol * beta);
      } else {
        double eta = 0.1 + 0.2 * below(3), lo = -1 - below(3), hi = lo + 1 + below(4);
        np += 1;
        auto f = [&](auto x, auto const &p) { return at_z(p, cd(lo + (hi - lo) * x.index() / (np - 1), eta)); };
        each(atomic_g_w(a, beta, gfst, {lo, hi}, np, eta, exc), "G(w)", f, tol * 10);
        each(adn::atomic_g_w<C>(lehm, gfst, tm::refreq{lo, hi, np}, eta), "G(w) from its Lehmann representation", f, tol * 10);
      }
      if (below(6) == 0 && !armed) { // modes that it does not have
        auto g = gfst;
        g[below((int)g.size())].second += 1;
        bool thrown = false;
        try {
          atomic_g_lehmann(a, beta, g);
        } catch (triqs::runtime_error const &) { thrown = true; }
        if (!thrown) FAIL("gf", "a Green's function of modes that the atom does not have");
      }
      sim::probe(std::array{"G(tau)", "G(iw)", "G(l)", "G(w)"}[which]);
      if (!exc.empty()) sim::probe("states left out");
    }

    // ------------------------------------------------------------- copies and files
    void op_copy(int d, int s, uint64_t code) {
      usable(s, code);
      seed   = sim::mix(code, 71);
      Model M = m(s);
      m(d).junk = true;
      switch (below(3)) {
        case 0: at[d] = at[s]; break;
        case 1: {
          AD t(at[s]);
          at[d] = std::move(t);
          break;
        }
        default: {
          AD t(at[s]);
          AD u(std::move(t));
          std::swap(at[d], u);
        }
      }
      m(d) = M;
      if (!(at[d] == at[s])) FAIL("copy", "a copy is not equal");
      check(at[d], m(d), "a copy");
      check(at[s], m(s), "what was copied");
      sim::probe("copies");
    }
    static bool io_plan() {
      for (auto const &f : sim::plan().faults)
        if (f.kind == "io") return true;
      return false;
    }
    void op_store(int d, int s, uint64_t code) {
      seed = sim::mix(code, 81);
      bool again = W().saved && below(3) == 0; // from the file of an earlier operation
      if (!again) {
        usable(s, code);
        bool large = false; // files take products of up to four operators
        for (auto const &t : at[s].get_h_atomic()) large = large || t.monomial.size() > 4;
        if (large) {
          if (armed) return;
          try {
            h5::file file("ad_new", 'w');
            h5_write(h5::group{file}, "atom", at[s]);
          } catch (triqs::runtime_error const &x) {
            if (!strstr(x.what(), "unexpected monomial") && !io_plan()) throw;
            sim::probe("a product too long for a file");
            return;
          } catch (h5::io_error const &) { return; }
          FAIL("stored", "a product of more than four operators in a file");
        }
      }
      try {
        h5::file file(again ? "ad" : "ad_new", again ? 'r' : 'w');
        h5::group g{file};
        Model M;
        if (!again) {
          usable(s, code);
          M = m(s);
          h5_write(g, "atom", at[s]);
          if (below(2)) {
            W().saved = false;
            h5::file f2("ad", 'w');
            h5_write(h5::group{f2}, "atom", at[s]);
            W().file  = M;
            W().saved = true;
          }
        } else
          M = W().file;
        m(d).junk = true;
        if (below(3) == 0) at[d] = AD();
        h5_read(g, "atom", at[d]);
        check(at[d], M, "read back");
        if (!again && d != s && !(at[d] == at[s])) FAIL("copy", "an atom read back is not equal to the one saved");
        m(d)      = M;
        m(d).junk = false;
        sim::probe("stored");
      } catch (h5::io_error const &) {
        sim::probe("not stored");
      } catch (triqs::runtime_error const &x) {
        if (!io_plan() || !(strstr(x.what(), "Error writing the many_body_operator") || strstr(x.what(), "Error reading the many_body_operator"))) throw;
        sim::probe("not stored");
      }
    }
    void op_print(int s, uint64_t code) {
      usable(s, code);
      std::ostringstream os;
      os << at[s];
      auto x = os.str();
      auto has = [&](std::string const &y) {
        if (x.find(y + "\n") == std::string::npos) FAIL("print", "printed '%s', without '%s'", x.c_str(), y.c_str());
      };
      has("Dimension of full Hilbert space: " + std::to_string(N()));
      has("Number of invariant subspaces: " + std::to_string(m(s).blocks.size()));
      for (int b = 0; b < (int)m(s).blocks.size(); ++b) {
        std::ostringstream t;
        t << "Subspace " << b << ", lowest energy level : " << at[s].get_eigenvalue(b, 0) << "\nSubspace dimension = " << at[s].get_subspace_dim(b);
        has(t.str());
      }
      if (!m((s + 1) % 3).junk && &at[s] != &at[(s + 1) % 3]) {
        auto &A = m(s), &B = m((s + 1) % 3);
        bool differ = A.pos != B.pos || !(real_op(A.H) == real_op(B.H)) || A.blocks != B.blocks;
        if (differ && at[s] == at[(s + 1) % 3]) FAIL("copy", "different atoms are equal");
      }
    }
    // eigensystems from one process to all
    void op_bcast(int s, uint64_t code, int root) {
      usable(s, code);
      mpi::communicator c;
      auto es = at[s].get_eigensystems();
      auto &X = W();
      X.en.clear(), X.un.clear();
      for (auto &x : es) {
        X.en.emplace_back(x.eigenvalues.begin(), x.eigenvalues.end());
        auto u = get(x.unitary_matrix);
        X.un.push_back(u.a);
      }
      int k = (int)es.size();
      mpi::broadcast(k, c, root);
      auto all  = es;
      all.resize(k);
      for (auto &x : all) mpi_broadcast(x, c, root);
      auto &R = WW().s[root];
      if ((int)R.en.size() != k) FAIL("broadcast", "another number of eigensystems");
      for (int b = 0; b < k; ++b) {
        std::vector<double> en(all[b].eigenvalues.begin(), all[b].eigenvalues.end());
        if (en != R.en[b] || get(all[b].unitary_matrix).a != R.un[b] || all[b].unitary_matrix.shape()[0] != (long)en.size()) FAIL("broadcast", "an eigensystem differs from the one of the root");
      }
      c.barrier();
      sim::probe("eigensystems broadcast");
    }

    // ------------------------------------------------------------- the process
    void go() {
      auto &P = sim::plan();
      seed    = sim::mix(sim::cfg("setup"), 1);
      int s1 = 1 + below(3), s2 = below(3);
      if (below(4) == 0) s2 = 0;
      std::array names{"up", "dn", "a", ""};
      int k0 = below(4), k1 = (k0 + 1 + below(3)) % 4;
      gfst.push_back({names[k0], s1});
      if (s2) gfst.push_back({names[k1], s2});
      for (auto &[nm, d] : gfst) {
        gfl.emplace_back();
        for (int i = 0; i < d; ++i) {
          gfl.back().push_back((int)U.size());
          U.push_back({nm, (long)i});
        }
      }
      if (below(3) == 0 && U.size() < 5) U.push_back({"bath"});
      n = (int)U.size();
      for (int s = 0; s < 3; ++s) m(s).junk = true;
      for (int &pc = W().pc; pc < (int)P.ops.size();) {
        int k          = pc++;
        auto const &op = P.ops[k];
        sim::step(100);
        int d = (int)op.arg(0) % 3, a = (int)op.arg(1) % 3;
        uint64_t code = sim::mix((uint64_t)op.arg(2), sim::rank());
        sim::trace("%s %d %d %ld", op.name.c_str(), d, a, (long)op.arg(2));
        where      = op.name;
        armed = false;
        for (auto const &f : P.faults)
          if (f.kind == "alloc" && f.arg(0) == k && op.name != "print") { // a stream only sets its badbit
            armed = true;
            usable(a, code);
            sim::fail_new(f.arg(1));
          }
        try {
          if (op.name == "make") make(d, code);
          else if (op.name == "matrix") op_matrix(a, code);
          else if (op.name == "qn") op_qn(a, code);
          else if (op.name == "gf") op_gf(a, code);
          else if (op.name == "copy") op_copy(d, a, code);
          else if (op.name == "store") op_store(d, a, code);
          else if (op.name == "print") op_print(a, code);
          else if (op.name == "bcast") op_bcast(a, code, (int)(op.arg(2) % sim::nranks()));
          sim::fail_new(0);
        } catch (std::bad_alloc const &) {
          sim::fail_new(0);
          if (!armed) throw;
          sim::fired("alloc");
          if (op.name == "make" || op.name == "copy" || op.name == "store") m(d).junk = true;
          where = op.name + " that ran out of memory";
        }
        for (int s = 0; s < 3; ++s)
          if (!m(s).junk && (armed || op.name == "store")) check(at[s], m(s), "afterwards");
      }
    }
  };
} // namespace

void ow::o03_generate(sim::Rng &g, sim::Plan &p) {
  p.cfg["kind"]  = g.range(0, 1);
  p.cfg["setup"] = (int64_t)(g.next() >> 24);
  int64_t ranks  = g.chance(0.85) ? 1 : g.range(2, 4);
  p.cfg["ranks"] = ranks;
  p.cfg["qnorder"] = g.chance(0.02);
  int n          = (int)g.range(1, ranks > 1 ? 3 : 6);
  for (int i = 0; i < n; ++i) {
    double u         = g.uniform();
    char const *name = ranks > 1 ? "bcast" : u < 0.15 ? "make" : u < 0.4 ? "matrix" : u < 0.55 ? "qn" : u < 0.75 ? "gf" : u < 0.82 ? "copy" : u < 0.96 ? "store" : "print";
    p.ops.push_back({-1, name, {g.range(0, 2), g.range(0, 2), (int64_t)(g.next() >> 24)}});
    if (ranks == 1 && g.chance(0.07)) p.faults.push_back({"alloc", {i, g.chance(0.5) ? g.range(1, 40) : g.range(1, 2000)}});
  }
  if (ranks == 1 && g.chance(0.3)) p.faults.push_back({"io", {0, g.chance(0.5) ? g.range(1, 60) : g.range(1, 300), 0}});
}
void ow::o03_setup() {
  static World *w = nullptr;
  delete w;
  w            = new World;
  sim::world() = w;
}
void ow::o03_body() {
  if (sim::cfg("kind"))
    Proc<true>{}.go();
  else
    Proc<false>{}.go();
}
