// Common part of the workload "gfs": Green's functions, blocks of them and their meshes used by simulated processes.
// Real code: triqs/gfs, triqs/mesh, triqs/lattice. Oracle: plain vectors of numbers and an independent description of every mesh.
#pragma once
#include "sim.hpp"
#include <h5/h5.hpp>
#include <nda/h5.hpp>
#include <nda/mpi.hpp>
using nda::make_regular; // as test and user code has it
#include <triqs/gfs.hpp>
#include <cmath>
#include <optional>
#include <set>

namespace gw {
  using namespace triqs::gfs;
  namespace mesh = triqs::mesh;
  using cd       = std::complex<double>;
  using mesh::Boson;
  using mesh::Fermion;

  enum { G01 = 1, G02 = 2, G03 = 3, G04 = 4 };
  inline bool on(int p) {
    int64_t w = sim::cfg("prop");
    return w == 0 || w == p;
  }
  inline std::string where; // the operation being checked
#define FAIL(cls, ...) sim::violation(cls, "%s: %s", gw::where.c_str(), gw::str(__VA_ARGS__).c_str())
  inline std::string str(char const *f, ...) {
    char b[600];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
  }

  // ================================================================= the models
  struct Leaf {
    int mv = 0;               // which mesh
    int tp = 0;               // parameters of tail fits that its mesh carries
    std::vector<long> ts;     // shape of the target
    std::vector<cd> d;        // data, C order
    bool dirty = false;       // the data are unspecified
  };
  struct Obj {
    std::vector<std::string> n1, n2;
    std::vector<Leaf> l;
    bool junk = true; // unspecified, it has to be made again
    bool dirty() const {
      if (junk) return true;
      for (auto &x : l)
        if (x.dirty) return true;
      return false;
    }
  };
  struct Side {
    int pc = 0;
    Obj o[3];
  };
  struct World {
    Side now[4];
    std::vector<std::array<Obj, 4>> at;                // operand of collective operation k on each rank
    std::map<std::string, Obj> file[4], tmpf[4];       // what the files of a rank hold
    bool valid[4] = {};
  };
  inline World &W() { return *static_cast<World *>(sim::world()); }

  // ================================================================= meshes, described independently
  // nvar: how many different ones; build(v): the real one; check(m, v): is m this one; npts
  template <typename M> struct MO;

  inline void near(double a, double b, char const *what) {
    if (!(std::abs(a - b) <= 1e-11 * (1 + std::abs(b)))) FAIL("mesh", "%s of the mesh is %.17g, expected %.17g", what, a, b);
  }
  inline void same(long a, long b, char const *what) {
    if (a != b) FAIL("mesh", "%s of the mesh is %ld, expected %ld", what, a, b);
  }
  // n points with given indices and values, one variable
  template <typename M, typename I, typename V> void check_points(M const &m, M const &fresh, long n, I index, V check_value) {
    same(m.size(), n, "the size");
    if (m.mesh_hash() != fresh.mesh_hash()) FAIL("mesh", "the hash of the mesh differs from the one of an equal mesh");
    if (!(m == fresh) || m != fresh) FAIL("mesh", "the mesh is not equal to one made with the same parameters");
    long i = 0;
    for (auto const &p : m) {
      if (i >= n) FAIL("mesh", "iteration over the mesh gives more than %ld points", n);
      same(p.data_index(), i, "data_index");
      if (p.mesh_hash() != m.mesh_hash()) FAIL("mesh", "the point %ld has another hash than its mesh", i);
      auto ix = index(i);
      if (!(p.index() == ix)) FAIL("mesh", "the index of point %ld is wrong", i);
      check_value(p, i);
      auto q = m[i];
      same(q.data_index(), i, "data_index of [i]");
      check_value(q, i);
      if constexpr (MO<M>::index_is_key) {
        same(m.to_data_index(ix), i, "to_data_index");
        if (!(m.to_index(i) == ix)) FAIL("mesh", "to_index(%ld) is wrong", i);
        if (!m.is_index_valid(ix)) FAIL("mesh", "the index of point %ld is not valid", i);
        auto r = m(ix);
        same(r.data_index(), i, "data_index of (index)");
        check_value(r, i);
      }
      ++i;
    }
    same(i, n, "the number of points met by an iteration");
  }

  // --------------------------------------------------------------- Matsubara frequencies
  template <> struct MO<mesh::imfreq> {
    using M                            = mesh::imfreq;
    static constexpr bool index_is_key = true;
    struct P {
      double beta;
      bool f;
      long n;
      bool pos;
    };
    static constexpr P tab[] = {{10, true, 30, false}, {10, true, 26, false}, {5, true, 30, false}, {10, false, 30, false}, {10, true, 4, false}, {10, true, 4, true}, {10, false, 3, true}, {10, false, 3, false}, {10, true, 1, true}, {10, true, 1, false}, {10, true, 3, true}, {10, true, 3, false}, {10, false, 4, false}};
    static constexpr int nvar = 13;
    static M build(int v) {
      auto p = tab[v];
      return {p.beta, p.f ? Fermion : Boson, p.n, p.pos ? M::option::positive_frequencies_only : M::option::all_frequencies};
    }
    static long first(int v) { return tab[v].pos ? 0 : tab[v].f ? -tab[v].n : -(tab[v].n - 1); }
    static long npts(int v) { return tab[v].pos ? tab[v].n : tab[v].f ? 2 * tab[v].n : 2 * tab[v].n - 1; }
    static void check(M const &m, int v) {
      auto p = tab[v];
      near(m.beta(), p.beta, "beta");
      same(m.statistic() == Fermion, p.f, "the statistic");
      same(m.positive_only(), p.pos, "positive_only");
      same(m.first_index(), first(v), "first_index");
      same(m.last_index(), first(v) + npts(v) - 1, "last_index");
      check_points(m, build(v), npts(v), [&](long i) { return first(v) + i; }, [&](auto const &x, long i) {
        cd w = x.value();
        near(w.real(), 0, "the real part of a frequency");
        near(w.imag(), M_PI * (2 * (first(v) + i) + (p.f ? 1 : 0)) / p.beta, "a frequency");
      });
    }
    static std::optional<int> combine(bool, int a, int b) { return a == b ? std::optional<int>(a) : std::nullopt; }
    static constexpr bool tails = true;
    static bool positive(int v) { return tab[v].pos; }
    static int unfold(int v) { // the mesh with all frequencies
      for (int k = 0; k < nvar; ++k)
        if (tab[k].beta == tab[v].beta && tab[k].f == tab[v].f && tab[k].n == tab[v].n && !tab[k].pos) return k;
      return -1;
    }
    // as older versions wrote it
    static void write_old(h5::group g, std::string const &name, int v) {
      auto p  = tab[v];
      auto gr = g.create_group(name);
      h5::write_hdf5_format_as_string(gr, "MeshImFreq");
      h5::write(gr, "size", npts(v));
      if (p.pos || v % 2) h5::write(gr, "start_at_0", p.pos ? 1 : 0);
      auto dm = gr.create_group("domain");
      h5::write(dm, "beta", p.beta);
      h5::write(dm, "statistic", std::string(p.f ? "F" : "B"));
    }
  };

  // --------------------------------------------------------------- linear meshes
  template <typename M> struct MOlin {
    static constexpr bool index_is_key = true;
    struct P {
      double a, b;
      long n;
    };
    static constexpr P tab[]  = {{-4, 4, 60}, {-4, 4, 41}, {-6, 6, 60}, {-1, 3, 5}, {0, 2, 2}, {1.5, 1.5, 1}, {-2, 7, 50}};
    static constexpr int nvar = 7;
    static M build(int v) { return {tab[v].a, tab[v].b, tab[v].n}; }
    static long npts(int v) { return tab[v].n; }
    static void check_lin(M const &m, int v) {
      auto p = tab[v];
      same(m.first_index(), 0, "first_index");
      same(m.last_index(), p.n - 1, "last_index");
      near(m.delta(), p.n == 1 ? 0 : (p.b - p.a) / (p.n - 1), "delta");
      check_points(m, build(v), p.n, [](long i) { return i; }, [&](auto const &x, long i) { near(x.value(), p.n == 1 ? p.a : p.a + (p.b - p.a) * i / (p.n - 1), "a point"); });
    }
    static std::optional<int> combine(bool, int a, int b) { return a == b ? std::optional<int>(a) : std::nullopt; }
    static bool positive(int) { return false; }
    static int unfold(int v) { return v; }
  };
  template <> struct MO<mesh::refreq> : MOlin<mesh::refreq> {
    static constexpr bool tails = true;
    static void check(mesh::refreq const &m, int v) {
      near(m.w_min(), tab[v].a, "w_min");
      near(m.w_max(), tab[v].b, "w_max");
      check_lin(m, v);
    }
  };
  template <> struct MO<mesh::retime> : MOlin<mesh::retime> {
    static constexpr bool tails = false;
    static void check(mesh::retime const &m, int v) {
      near(m.t_min(), tab[v].a, "t_min");
      near(m.t_max(), tab[v].b, "t_max");
      check_lin(m, v);
    }
  };
  // beta, statistic, number of points; products exchange the statistics
  template <typename M> struct MOstat {
    static constexpr bool index_is_key = true;
    static constexpr bool tails        = false;
    struct P {
      double beta;
      bool f;
      long n;
    };
    static constexpr P tab[]  = {{10, true, 6}, {10, false, 6}, {10, true, 4}, {10, false, 4}, {5, true, 6}, {5, false, 6}};
    static constexpr int nvar = 6;
    static M build(int v) { return {tab[v].beta, tab[v].f ? Fermion : Boson, tab[v].n}; }
    static long npts(int v) { return tab[v].n; }
    static void check_stat(M const &m, int v) {
      near(m.beta(), tab[v].beta, "beta");
      same(m.statistic() == Fermion, tab[v].f, "the statistic");
    }
    static bool positive(int) { return false; }
    static int unfold(int v) { return v; }
  };
  template <> struct MO<mesh::imtime> : MOstat<mesh::imtime> {
    static void check(mesh::imtime const &m, int v) {
      check_stat(m, v);
      auto p = tab[v];
      check_points(m, build(v), p.n, [](long i) { return i; }, [&](auto const &x, long i) { near(x.value(), p.beta * i / (p.n - 1), "a time"); });
    }
    static std::optional<int> combine(bool mult, int a, int b) {
      if (!mult) return a == b ? std::optional<int>(a) : std::nullopt;
      if (a / 2 != b / 2) return std::nullopt;
      return 2 * (a / 2) + ((a + b) % 2 ? 0 : 1); // fermion * boson is a fermion, the others are bosons
    }
    static void write_old(h5::group g, std::string const &name, int v) {
      auto gr = g.create_group(name);
      h5::write_hdf5_format_as_string(gr, "MeshImTime");
      h5::write(gr, "size", tab[v].n);
      auto dm = v % 2 ? gr : gr.create_group("domain");
      h5::write(dm, "beta", tab[v].beta);
      h5::write(dm, "statistic", std::string(tab[v].f ? "F" : "B"));
    }
  };
  template <> struct MO<mesh::legendre> : MOstat<mesh::legendre> {
    static void check(mesh::legendre const &m, int v) {
      check_stat(m, v);
      check_points(m, build(v), tab[v].n, [](long i) { return i; }, [&](auto const &, long) {});
    }
    static std::optional<int> combine(bool, int a, int b) { return a == b ? std::optional<int>(a) : std::nullopt; }
    static void write_old(h5::group g, std::string const &name, int v) {
      auto gr = g.create_group(name);
      h5::write_hdf5_format_as_string(gr, "MeshLegendre");
      auto dm = v % 2 ? gr : gr.create_group("domain");
      h5::write(dm, "n_max", tab[v].n);
      h5::write(dm, "beta", tab[v].beta);
      h5::write(dm, "statistic", std::string(tab[v].f ? "F" : "B"));
    }
  };
  template <> struct MO<mesh::discrete> {
    static constexpr bool index_is_key = true, tails = false;
    static constexpr int nvar = 3;
    static long npts(int v) { return std::array{3, 1, 5}[v]; }
    static mesh::discrete build(int v) { return {npts(v)}; }
    static void check(mesh::discrete const &m, int v) {
      check_points(m, build(v), npts(v), [](long i) { return i; }, [](auto const &, long) {});
    }
    static std::optional<int> combine(bool, int a, int b) { return a == b ? std::optional<int>(a) : std::nullopt; }
    static bool positive(int) { return false; }
    static int unfold(int v) { return v; }
  };

  // --------------------------------------------------------------- lattices
  struct Lat {
    int dim;
    double u[3][3];
    int orb;
    long n[3];
  };
  // the last ones differ from others only by the order of numbers
  inline constexpr Lat lats[] = {{2, {{1, 0, 0}, {0, 2, 0}, {0, 0, 1}}, 1, {3, 2, 1}}, {2, {{1, 0, 0}, {0, 2, 0}, {0, 0, 1}}, 1, {2, 3, 1}}, {2, {{2, 0, 0}, {0, 1, 0}, {0, 0, 1}}, 1, {3, 2, 1}},
                                 {3, {{1, 0.5, 0}, {0, 1, 0}, {0, 0.25, 2}}, 2, {2, 1, 2}}, {1, {{1, 0, 0}, {0, 0, 0}, {0, 0, 0}}, 1, {5, 1, 1}}, {2, {{1, 0, 0}, {0, 2, 0}, {0, 0, 1}}, 1, {6, 1, 1}}};
  inline triqs::lattice::bravais_lattice lattice(int v) {
    auto const &L = lats[v];
    nda::matrix<double> u(L.dim, L.dim);
    for (int i = 0; i < L.dim; ++i)
      for (int j = 0; j < L.dim; ++j) u(i, j) = L.u[i][j];
    std::vector<triqs::lattice::r_t> pos;
    std::vector<std::string> names;
    for (int k = 0; k < L.orb; ++k) {
      triqs::lattice::r_t x(3);
      x(0) = 0.5 * k;
      x(1) = 0.25 * k;
      x(2) = 0;
      pos.push_back(x);
      names.push_back("orb" + std::to_string(k));
    }
    return {u, pos, names};
  }
  template <typename M> struct MOlat {
    static constexpr bool index_is_key = true, tails = false;
    static constexpr int nvar = 6;
    static long npts(int v) { return lats[v].n[0] * lats[v].n[1] * lats[v].n[2]; }
    static std::array<long, 3> dims(int v) { return {lats[v].n[0], lats[v].n[1], lats[v].n[2]}; }
    static std::array<long, 3> index(int v, long i) {
      auto &n = lats[v].n;
      return {i / (n[1] * n[2]), (i / n[2]) % n[1], i % n[2]};
    }
    static std::optional<int> combine(bool, int a, int b) { return a == b ? std::optional<int>(a) : std::nullopt; }
    static bool positive(int) { return false; }
    static int unfold(int v) { return v; }
    static void check_lattice(triqs::lattice::bravais_lattice l, int v) {
      auto const &L = lats[v];
      same(l.ndim(), L.dim, "the dimension");
      same(l.n_orbitals(), L.orb, "the number of orbitals");
      for (int i = 0; i < L.dim; ++i)
        for (int j = 0; j < L.dim; ++j) near(l.units()(i, j), L.u[i][j], "a unit vector");
      for (int k = 0; k < L.orb; ++k) {
        near(l.orbital_positions().at(k)(0), 0.5 * k, "an orbital position");
        near(l.orbital_positions().at(k)(1), 0.25 * k, "an orbital position");
        if (l.orbital_names().at(k) != "orb" + std::to_string(k)) FAIL("mesh", "the orbital %d is named %s", k, l.orbital_names()[k].c_str());
      }
    }
  };
  template <> struct MO<mesh::brzone> : MOlat<mesh::brzone> {
    static mesh::brzone build(int v) { return {triqs::lattice::brillouin_zone{lattice(v)}, dims(v)}; }
    static void check(mesh::brzone const &m, int v) {
      if (m.dims() != dims(v)) FAIL("mesh", "the dimensions of the mesh are (%ld,%ld,%ld), expected (%ld,%ld,%ld)", m.dims()[0], m.dims()[1], m.dims()[2], dims(v)[0], dims(v)[1], dims(v)[2]);
      check_lattice(m.bz().lattice(), v);
      auto f = build(v);
      auto K = f.bz().units();
      check_points(m, f, npts(v), [&](long i) { return index(v, i); }, [&](auto const &x, long i) {
        auto ix = index(v, i);
        for (int d = 0; d < lats[v].dim; ++d) {
          double k = 0;
          for (int j = 0; j < 3; ++j) k += (double)ix[j] / dims(v)[j] * K(j, d);
          near(x.value()[d], k, "a k point");
        }
      });
    }
    static void write_old(h5::group g, std::string const &name, int v) {
      auto gr = g.create_group(name);
      h5::write_hdf5_format_as_string(gr, "MeshBrillouinZone");
      nda::matrix<long> pm(3, 3);
      pm() = 0;
      for (int i = 0; i < 3; ++i) pm(i, i) = dims(v)[i];
      h5::write(gr, "periodization_matrix", pm);
      h5::write(gr, v % 2 ? "bz" : "brillouin_zone", triqs::lattice::brillouin_zone{lattice(v)});
    }
  };
  template <> struct MO<mesh::cyclat> : MOlat<mesh::cyclat> {
    static mesh::cyclat build(int v) { return {lattice(v), dims(v)}; }
    static void check(mesh::cyclat const &m, int v) {
      if (m.dims() != dims(v)) FAIL("mesh", "the dimensions of the mesh are (%ld,%ld,%ld), expected (%ld,%ld,%ld)", m.dims()[0], m.dims()[1], m.dims()[2], dims(v)[0], dims(v)[1], dims(v)[2]);
      check_lattice(m.lattice(), v);
      check_points(m, build(v), npts(v), [&](long i) { return index(v, i); }, [&](auto const &x, long i) {
        auto ix = index(v, i);
        auto r  = static_cast<triqs::lattice::r_t>(x.value());
        for (int d = 0; d < lats[v].dim; ++d) {
          double k = 0;
          for (int j = 0; j < lats[v].dim; ++j) k += (double)ix[j] * lats[v].u[j][d];
          near(r(d), k, "a lattice point");
        }
      });
    }
    static void write_old(h5::group g, std::string const &name, int v) {
      auto gr = g.create_group(name);
      h5::write_hdf5_format_as_string(gr, "MeshCyclicLattice");
      nda::matrix<long> pm(3, 3);
      pm() = 0;
      for (int i = 0; i < 3; ++i) pm(i, i) = dims(v)[i];
      h5::write(gr, "periodization_matrix", pm);
      h5::write(gr, v % 2 ? "bl" : "bravais_lattice", lattice(v));
    }
  };

  // --------------------------------------------------------------- discrete Lehmann representation
  struct Dlr {
    double beta, w, eps;
    bool f;
  };
  inline constexpr Dlr dlrs[] = {{10, 5, 1e-8, true}, {10, 5, 1e-8, false}, {5, 10, 1e-8, true}, {5, 10, 1e-8, false}, {10, 5, 1e-4, true}, {10, 5, 1e-4, false}};
  template <typename M> struct MOdlr {
    static constexpr bool index_is_key = false, tails = false;
    static constexpr int nvar = 6;
    static M build(int v) { return {dlrs[v].beta, dlrs[v].f ? Fermion : Boson, dlrs[v].w, dlrs[v].eps}; }
    static long npts(int v) { return cppdlr::build_dlr_rf(dlrs[v].w * dlrs[v].beta, dlrs[v].eps).size(); }
    static bool positive(int) { return false; }
    static int unfold(int v) { return v; }
    static void check_par(M const &m, int v) {
      near(m.beta(), dlrs[v].beta, "beta");
      near(m.w_max(), dlrs[v].w, "w_max");
      if (m.eps() != dlrs[v].eps) FAIL("mesh", "eps of the mesh is %g", m.eps());
      same(m.statistic() == Fermion, dlrs[v].f, "the statistic");
    }
    static std::optional<int> combine(bool mult, int a, int b) {
      if (!mult || !std::is_same_v<M, mesh::dlr_imtime>) return a == b ? std::optional<int>(a) : std::nullopt;
      if (a / 2 != b / 2) return std::nullopt;
      return 2 * (a / 2) + ((a + b) % 2 ? 0 : 1);
    }
  };
  template <> struct MO<mesh::dlr> : MOdlr<mesh::dlr> {
    static void check(mesh::dlr const &m, int v) {
      check_par(m, v);
      auto w = cppdlr::build_dlr_rf(dlrs[v].w * dlrs[v].beta, dlrs[v].eps);
      check_points(m, build(v), npts(v), [](long i) { return i; }, [&](auto const &, long) {});
    }
  };
  template <> struct MO<mesh::dlr_imtime> : MOdlr<mesh::dlr_imtime> {
    static void check(mesh::dlr_imtime const &m, int v) {
      check_par(m, v);
      auto w = cppdlr::build_dlr_rf(dlrs[v].w * dlrs[v].beta, dlrs[v].eps);
      cppdlr::imtime_ops t{dlrs[v].w * dlrs[v].beta, w};
      check_points(m, build(v), npts(v), [](long i) { return i; }, [&](auto const &x, long i) {
        double y = t.get_itnodes()(i);
        near(x.value(), (y >= 0 ? y : 1 + y) * dlrs[v].beta, "a time");
      });
    }
  };
  template <> struct MO<mesh::dlr_imfreq> : MOdlr<mesh::dlr_imfreq> {
    static void check(mesh::dlr_imfreq const &m, int v) {
      check_par(m, v);
      auto w = cppdlr::build_dlr_rf(dlrs[v].w * dlrs[v].beta, dlrs[v].eps);
      cppdlr::imfreq_ops t{dlrs[v].w * dlrs[v].beta, w, dlrs[v].f ? cppdlr::Fermion : cppdlr::Boson};
      check_points(m, build(v), npts(v), [&](long i) { return (long)t.get_ifnodes()(i); }, [&](auto const &x, long i) {
        near(cd(x.value()).imag(), M_PI * (2 * t.get_ifnodes()(i) + (dlrs[v].f ? 1 : 0)) / dlrs[v].beta, "a frequency");
      });
    }
  };

  // --------------------------------------------------------------- products: three variants of every component
  template <typename... Ms> struct MO<mesh::prod<Ms...>> {
    using M                    = mesh::prod<Ms...>;
    static constexpr int N     = sizeof...(Ms);
    static constexpr int B     = 3;
    static constexpr int nvar  = N == 2 ? 9 : 27;
    static constexpr bool tails = false;
    static constexpr bool index_is_key = (MO<Ms>::index_is_key and ...);
    // small ones of the components
    template <typename X> static constexpr int pick(int k) {
      if constexpr (std::is_same_v<X, mesh::imfreq>)
        return std::array{4, 7, 5}[k];
      else
        return k;
    }
    static int digit(int v, int i) { // the first component varies fastest
      while (i--) v /= B;
      return v % B;
    }
    template <size_t I> using C = std::tuple_element_t<I, std::tuple<Ms...>>;
    template <size_t I> static int comp(int v) { return pick<C<I>>(digit(v, I)); }
    static M build(int v) {
      return [&]<size_t... I>(std::index_sequence<I...>) { return M{MO<Ms>::build(comp<I>(v))...}; }(std::index_sequence_for<Ms...>{});
    }
    static std::array<long, N> sizes(int v) {
      return [&]<size_t... I>(std::index_sequence<I...>) { return std::array<long, N>{MO<Ms>::npts(comp<I>(v))...}; }(std::index_sequence_for<Ms...>{});
    }
    static long npts(int v) {
      long n = 1;
      for (auto x : sizes(v)) n *= x;
      return n;
    }
    static bool positive(int) { return false; }
    static int unfold(int v) { return v; }
    static void check(M const &m, int v) {
      same(m.size(), npts(v), "the size of the product");
      if (m.size_of_components() != sizes(v)) FAIL("mesh", "the sizes of the components are wrong");
      [&]<size_t... I>(std::index_sequence<I...>) { (MO<Ms>::check(std::get<I>(m), comp<I>(v)), ...); }(std::index_sequence_for<Ms...>{});
      auto f = build(v);
      if (!(m == f) || m != f) FAIL("mesh", "the product is not equal to one made with the same parameters");
      long i  = 0;
      auto sz = sizes(v);
      for (auto const &p : m) {
        if (i >= npts(v)) FAIL("mesh", "iteration over the product gives more than %ld points", npts(v));
        auto di = p.data_index();
        same(flat(di, sz), i, "the data index of a product");
        auto ix = [&]<size_t... I>(std::index_sequence<I...>) { return std::make_tuple(std::get<I>(m)[std::get<I>(di)].index()...); }(std::index_sequence_for<Ms...>{});
        if (!(p.index() == ix)) FAIL("mesh", "the index of point %ld of the product is wrong", i);
        if constexpr (index_is_key) {
          if (!(m.to_data_index(ix) == di) || !(m.to_index(di) == ix)) FAIL("mesh", "indices of point %ld of the product do not map to each other", i);
          if (!(m(ix).data_index() == di)) FAIL("mesh", "the point %ld of the product got by its index is another one", i);
        }
        if (!(m[di].index() == ix)) FAIL("mesh", "the point %ld of the product got by its data index is another one", i);
        ++i;
      }
      same(i, npts(v), "the number of points met by an iteration");
    }
    template <typename T> static long flat(T const &di, std::array<long, N> const &sz) {
      long k = 0;
      int c  = 0;
      std::apply([&](auto... x) { ((k = k * sz[c++] + (long)x), ...); }, di);
      return k;
    }
    static std::optional<int> combine(bool mult, int a, int b) {
      std::optional<int> r = 0;
      int base             = 1;
      [&]<size_t... I>(std::index_sequence<I...>) {
        ((
            [&] {
              auto c = MO<Ms>::combine(mult, comp<I>(a), comp<I>(b));
              if (!c) r.reset();
              int d = -1;
              for (int k = 0; k < B && c; ++k)
                if (pick<C<I>>(k) == *c) d = k;
              if (d < 0) r.reset(); // also: not one of ours
              if (r) *r += base * d;
              base *= B;
            }()),
            ...);
      }(std::index_sequence_for<Ms...>{});
      return r;
    }
    // is the combination one that is not in the table, though allowed
    static bool foreign(bool mult, int a, int b) {
      bool ok = true;
      [&]<size_t... I>(std::index_sequence<I...>) { ((ok = ok && MO<Ms>::combine(mult, comp<I>(a), comp<I>(b)).has_value()), ...); }(std::index_sequence_for<Ms...>{});
      return ok && !combine(mult, a, b);
    }
    static void write_old(h5::group g, std::string const &name, int v)
      requires(requires(h5::group x) { MO<Ms>::write_old(x, "", 0); } and ...)
    {
      auto gr = g.create_group(name);
      h5::write_hdf5_format_as_string(gr, "MeshProduct");
      [&]<size_t... I>(std::index_sequence<I...>) { (MO<Ms>::write_old(gr, "MeshComponent" + std::to_string(I), comp<I>(v)), ...); }(std::index_sequence_for<Ms...>{});
    }
  };
  template <typename M> std::vector<long> mesh_shape(int v) {
    if constexpr (mesh::is_product<M>) {
      auto s = MO<M>::sizes(v);
      return {s.begin(), s.end()};
    } else
      return {MO<M>::npts(v)};
  }

  // parameters of tail fits (0: the default ones)
  struct TailPar {
    double frac;
    int nmax;
    std::optional<int> order;
  };
  inline const TailPar tails[] = {{0.2, 30, {}}, {0.4, 30, {}}, {0.6, 12, 3}, {0.9, 40, 4}, {0.5, 8, 5}};

  inline std::vector<int> decode(uint64_t x, std::initializer_list<int> base) {
    std::vector<int> r;
    for (int b : base) {
      r.push_back((int)(x % b));
      x /= b;
    }
    return r;
  }
  template <typename X> std::string name_of(X i) { return std::to_string(i); }
} // namespace gw
