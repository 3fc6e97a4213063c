// Stand-in for the TRIQS/mpi library on top of the simulated communication fabric.
// Semantics kept from the real library: reduce() leaves the result on the other ranks unspecified (here: seeded
// garbage), the order of a reduction is unspecified (here: a seeded permutation, the same on all ranks),
// reduce/broadcast/gather may return before the others have entered, all_* wait for everybody.
#pragma once
#include "sim.hpp"
#include <algorithm>
#include <array>
#include <complex>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

struct MPI_Comm_s {
  int id;
};
using MPI_Comm = int;
enum MPI_Op { MPI_SUM, MPI_PROD, MPI_MIN, MPI_MAX, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR };
enum MPI_Datatype { MPI_BYTE, MPI_CHAR, MPI_INT, MPI_LONG, MPI_DOUBLE };
inline constexpr MPI_Comm MPI_COMM_WORLD = 0;
inline constexpr MPI_Comm MPI_COMM_NULL  = -1;
inline constexpr int MPI_UNDEFINED       = -32766;

namespace mpi {

  struct has_env_t {
    operator bool() const { return sim::cfg("mpi_env", 1) != 0; }
  };
  inline constexpr has_env_t has_env{};
  inline bool is_initialized() { return has_env; }

  class communicator {
    int id_ = MPI_COMM_WORLD;

    public:
    communicator() = default;
    communicator(MPI_Comm c) : id_(c) {}
    [[nodiscard]] MPI_Comm get() const noexcept { return id_; }
    [[nodiscard]] bool is_null() const noexcept { return id_ == MPI_COMM_NULL; }
    [[nodiscard]] int rank() const {
      if (!has_env || is_null()) return 0;
      auto const &m = sim::comm_members(id_);
      for (size_t i = 0; i < m.size(); ++i)
        if (m[i] == sim::rank()) return (int)i;
      return 0;
    }
    [[nodiscard]] int size() const {
      if (!has_env || is_null()) return 1;
      return (int)sim::comm_members(id_).size();
    }
    [[nodiscard]] communicator split(int color, int key = 0) const {
      if (!has_env) return *this;
      int me = rank();
      std::vector<char> in(2 * sizeof(int));
      memcpy(in.data(), &color, sizeof(int));
      memcpy(in.data() + sizeof(int), &key, sizeof(int));
      int id    = id_;
      int out   = MPI_COMM_NULL;
      sim::collective(id_, me, "split", 0, -1, in, sim::Need::all, [&](sim::Coll &c) {
        std::vector<std::pair<int, int>> v;
        for (int i = 0; i < c.n; ++i) {
          int col, k;
          memcpy(&col, c.in[i].data(), sizeof(int));
          memcpy(&k, c.in[i].data() + sizeof(int), sizeof(int));
          if (col == color) v.push_back({k, i});
        }
        std::sort(v.begin(), v.end());
        if (color != MPI_UNDEFINED) {
          std::vector<int> m;
          for (auto &x : v) m.push_back(sim::comm_members(id)[x.second]);
          out = sim::comm_create(m, "split/" + std::to_string(id) + "/" + std::to_string(c.seq) + "/" + std::to_string(color));
        }
        return std::vector<char>{};
      });
      return communicator{out};
    }
    [[nodiscard]] communicator duplicate() const { return split(0, rank()); }
    [[nodiscard]] communicator split_shared(int = 0, int = 0) const { return duplicate(); }
    void free() { id_ = MPI_COMM_NULL; }
    void abort(int code) const { sim::abort_all(code); }
    void barrier(long = 0) const {
      if (!has_env || is_null()) return;
      sim::collective(id_, rank(), "barrier", 0, -1, {}, sim::Need::all, [](sim::Coll &) { return std::vector<char>{}; });
    }
    bool operator==(communicator const &o) const { return id_ == o.id_; }
  };

  struct environment {
    environment(int = 0, char ** = nullptr) {}
  };

  // ---------------------------------------------------------------- types
  template <typename T> struct is_complex_ : std::false_type {};
  template <typename T> struct is_complex_<std::complex<T>> : std::true_type {};
  template <typename T> concept scalar = std::is_arithmetic_v<T> or is_complex_<T>::value;
  template <typename T> inline constexpr bool has_mpi_type = scalar<T>;
  template <typename T> struct mpi_type {
    static MPI_Datatype get() { return MPI_BYTE; }
  };

  struct tag {
    struct reduce {};
    struct scatter {};
    struct gather {};
  };
  template <typename Tag, typename T> struct lazy {
    T rhs;
    communicator c{};
    int root{};
    bool all{};
    MPI_Op op{MPI_SUM};
  };
  template <typename T> inline constexpr bool is_mpi_lazy                         = false;
  template <typename Tag, typename T> inline constexpr bool is_mpi_lazy<lazy<Tag, T>> = true;

  // ---------------------------------------------------------------- raw operations
  namespace detail {
    // bytes nobody wrote: what a rank sees in a buffer MPI leaves untouched
    inline void poison(void *p, size_t n, uint64_t salt) {
      auto b     = (unsigned char *)p;
      uint64_t m = sim::mix(sim::plan().seed, salt) % 3;
      for (size_t i = 0; i < n; ++i) b[i] = m == 0 ? 0 : m == 1 ? (unsigned char)0x77 : (unsigned char)(sim::mix(sim::plan().seed, salt + i / 8 + 99) >> (8 * (i % 8)));
    }
    template <typename T> T combine(T a, T b, MPI_Op op) {
      if constexpr (is_complex_<T>::value) {
        if (op == MPI_PROD) return a * b;
        return a + b;
      } else if constexpr (std::is_same_v<T, bool>) {
        switch (op) {
          case MPI_LAND:
          case MPI_BAND:
          case MPI_MIN:
          case MPI_PROD: return a && b;
          default: return a || b;
        }
      } else {
        switch (op) {
          case MPI_SUM: return a + b;
          case MPI_PROD: return a * b;
          case MPI_MIN: return std::min(a, b);
          case MPI_MAX: return std::max(a, b);
          case MPI_LAND: return a && b;
          case MPI_LOR: return a || b;
          default: return a + b;
        }
      }
    }
    inline std::vector<int> order(int comm, uint64_t seq, int n) {
      std::vector<int> p(n);
      for (int i = 0; i < n; ++i) p[i] = i;
      if (sim::cfg("shuffle", 1)) {
        sim::Rng g(sim::mix(sim::plan().seed, sim::mix(comm, seq)));
        for (int i = n - 1; i > 0; --i) std::swap(p[i], p[g.below(i + 1)]);
      }
      return p;
    }
    template <typename T> void reduce_raw(T const *in, T *out, long n, communicator c, int root, bool all, MPI_Op op) {
      if (!has_env || c.size() == 1) {
        std::vector<T> tmp(in, in + n);
        if (c.size() == 1 && has_env) sim::point("mpi-self");
        std::copy(tmp.begin(), tmp.end(), out);
        return;
      }
      std::vector<char> buf(n * sizeof(T));
      if (n) memcpy(buf.data(), in, n * sizeof(T));
      int me      = c.rank();
      bool want   = all || me == root;
      std::string kind = std::string(all ? "allreduce" : "reduce") + "/" + std::to_string((int)op);
      sim::collective(c.get(), me, kind, all ? 0 : root, (int64_t)(n * sizeof(T)), std::move(buf), want ? sim::Need::all : sim::Need::none, [&](sim::Coll &k) {
        if (!want) {
          if ((void *)in != (void *)out) poison(out, n * sizeof(T), sim::mix(k.seq, me));
          return std::vector<char>{};
        }
        auto ord = order(k.comm, k.seq, k.n);
        bool first = true;
        std::vector<T> r(n);
        for (int i : ord) {
          auto p = (T const *)k.in[i].data();
          for (long j = 0; j < n; ++j) {
            T v;
            memcpy(&v, p + j, sizeof(T));
            r[j] = first ? v : combine<T>(r[j], v, op);
          }
          first = false;
        }
        std::copy(r.begin(), r.end(), out);
        return std::vector<char>{};
      });
    }
    inline void bcast_raw(void *p, long bytes, communicator c, int root) {
      if (!has_env || c.size() == 1) return;
      int me = c.rank();
      std::vector<char> buf;
      if (me == root) buf.assign((char *)p, (char *)p + bytes);
      sim::collective(c.get(), me, "bcast", root, bytes, std::move(buf), me == root ? sim::Need::none : sim::Need::root, [&](sim::Coll &k) {
        if (me != root && bytes) memcpy(p, k.in[root].data(), bytes);
        return std::vector<char>{};
      });
    }
    // variable sized gather; returns one buffer per rank (empty on ranks that get nothing)
    inline std::vector<std::vector<char>> gather_raw(void const *p, long bytes, communicator c, int root, bool all) {
      std::vector<std::vector<char>> res;
      if (!has_env || c.size() == 1) {
        res.push_back(std::vector<char>((char const *)p, (char const *)p + bytes));
        return res;
      }
      int me    = c.rank();
      bool want = all || me == root;
      sim::collective(c.get(), me, all ? "allgather" : "gather", all ? 0 : root, -1, std::vector<char>((char const *)p, (char const *)p + bytes),
                      want ? sim::Need::all : sim::Need::none, [&](sim::Coll &k) {
                        if (want) res = k.in;
                        return std::vector<char>{};
                      });
      return res;
    }
    // the same everywhere: total of first-index chunks
    inline std::pair<long, long> chunk(long n, int size, int rank) {
      long q = n / size, r = n % size;
      long b = rank * q + std::min<long>(rank, r);
      return {b, b + q + (rank < r ? 1 : 0)};
    }
    inline std::vector<char> scatter_raw(std::vector<std::vector<char>> const &pieces, communicator c, int root) {
      if (!has_env || c.size() == 1) return pieces.at(0);
      int me = c.rank();
      std::vector<char> in, out;
      if (me == root)
        for (auto const &x : pieces) {
          int64_t n = (int64_t)x.size();
          in.insert(in.end(), (char const *)&n, (char const *)&n + 8);
          in.insert(in.end(), x.begin(), x.end());
        }
      sim::collective(c.get(), me, "scatter", root, -1, std::move(in), me == root ? sim::Need::none : sim::Need::root, [&](sim::Coll &k) {
        auto const &b = k.in[root];
        size_t pos    = 0;
        for (int i = 0; i <= me; ++i) {
          int64_t n;
          memcpy(&n, b.data() + pos, 8);
          pos += 8;
          if (i == me) out.assign(b.begin() + pos, b.begin() + pos + n);
          pos += n;
        }
        return std::vector<char>{};
      });
      return out;
    }
  } // namespace detail

  // ---------------------------------------------------------------- scalars
  template <scalar T> void mpi_broadcast(T &a, communicator c = {}, int root = 0) { detail::bcast_raw(&a, sizeof(T), c, root); }
  template <scalar T> T mpi_reduce(T a, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    T b;
    detail::reduce_raw(&a, &b, 1, c, root, all, op);
    return b;
  }
  template <scalar T> void mpi_reduce_in_place(T &a, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    detail::reduce_raw(&a, &a, 1, c, root, all, op);
  }
  template <scalar T> std::vector<T> mpi_gather(T const &a, communicator c = {}, int root = 0, bool all = false) {
    auto r = detail::gather_raw(&a, sizeof(T), c, root, all);
    std::vector<T> v(r.size());
    for (size_t i = 0; i < r.size(); ++i) memcpy((void *)&v[i], r[i].data(), sizeof(T));
    return v;
  }

  // pair, tuple, array: member by member
  template <typename T1, typename T2> void mpi_broadcast(std::pair<T1, T2> &p, communicator c = {}, int root = 0);
  template <typename T1, typename T2> std::pair<T1, T2> mpi_reduce(std::pair<T1, T2> const &p, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM);
  template <typename... T> void mpi_broadcast(std::tuple<T...> &p, communicator c = {}, int root = 0);

  // ---------------------------------------------------------------- generic front ends
  template <typename T> void broadcast(T &&x, communicator c = {}, int root = 0) { mpi_broadcast(x, c, root); }
  template <typename T> decltype(auto) reduce(T &&x, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    return mpi_reduce(std::forward<T>(x), c, root, all, op);
  }
  template <typename T> decltype(auto) all_reduce(T &&x, communicator c = {}, MPI_Op op = MPI_SUM) { return mpi_reduce(std::forward<T>(x), c, 0, true, op); }
  template <typename T> void reduce_in_place(T &&x, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    mpi_reduce_in_place(x, c, root, all, op);
  }
  template <typename T> void all_reduce_in_place(T &&x, communicator c = {}, MPI_Op op = MPI_SUM) { mpi_reduce_in_place(x, c, 0, true, op); }
  template <typename T> decltype(auto) scatter(T &&x, communicator c = {}, int root = 0) { return mpi_scatter(std::forward<T>(x), c, root); }
  template <typename T> decltype(auto) gather(T &&x, communicator c = {}, int root = 0, bool all = false) { return mpi_gather(std::forward<T>(x), c, root, all); }
  template <typename T> decltype(auto) all_gather(T &&x, communicator c = {}) { return mpi_gather(std::forward<T>(x), c, 0, true); }

  template <typename T1, typename T2> void mpi_broadcast(std::pair<T1, T2> &p, communicator c, int root) {
    broadcast(p.first, c, root);
    broadcast(p.second, c, root);
  }
  template <typename T1, typename T2> std::pair<T1, T2> mpi_reduce(std::pair<T1, T2> const &p, communicator c, int root, bool all, MPI_Op op) {
    T1 a = reduce(p.first, c, root, all, op);
    T2 b = reduce(p.second, c, root, all, op);
    return {a, b};
  }
  template <typename... T> void mpi_broadcast(std::tuple<T...> &p, communicator c, int root) {
    std::apply([&](auto &...x) { (broadcast(x, c, root), ...); }, p);
  }

  inline std::pair<long, long> chunk_range(long b, long e, long n, long rank) {
    auto r = detail::chunk(e - b, (int)n, (int)rank);
    return {b + r.first, b + r.second};
  }

  template <typename F> int exec_main(F &&f) { return f(); }
} // namespace mpi

#include "./vector.hpp"
#include "./string.hpp"
