// Minimal stand-in for the mpi library: ranks are threads (see mpi::run). Enough for the demonstrations.
#pragma once
#include <barrier>
#include <complex>
#include <cstring>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <vector>
enum MPI_Op { MPI_SUM, MPI_PROD, MPI_MIN, MPI_MAX, MPI_LAND, MPI_LOR };
using MPI_Comm = int;
namespace mpi {
  inline thread_local int rank_ = 0;
  inline int size_              = 1;
  inline std::vector<std::vector<char>> slots(1);
  inline std::unique_ptr<std::barrier<>> bar;
  inline bool has_env = true;
  inline bool is_initialized() { return has_env; }
  inline void sync() {
    if (size_ > 1) bar->arrive_and_wait();
  }
  inline void run(int n, std::function<void()> f) {
    size_ = n;
    slots.assign(n, {});
    bar = std::make_unique<std::barrier<>>(n);
    std::vector<std::thread> t;
    for (int i = 0; i < n; ++i)
      t.emplace_back([i, f] {
        rank_ = i;
        f();
      });
    for (auto &x : t) x.join();
    size_ = 1;
  }
  struct communicator {
    int rank() const { return size_ > 1 ? rank_ : 0; }
    int size() const { return size_; }
    int get() const { return 0; }
    void abort(int) const { _exit(77); }
    void barrier() const { sync(); }
    communicator duplicate() const { return *this; }
  };
  inline std::vector<std::vector<char>> allgather_(void const *p, size_t n) {
    slots[size_ > 1 ? rank_ : 0].assign((char const *)p, (char const *)p + n);
    sync();
    auto r = slots;
    sync();
    return r;
  }
  struct tag { struct reduce {}; struct gather {}; struct scatter {}; };
  template <typename Tag, typename T> struct lazy { T rhs; communicator c; int root; bool all; MPI_Op op; };
  template <typename T> T comb_(T a, T b, MPI_Op op) {
    if constexpr (std::is_arithmetic_v<T>) {
      if (op == MPI_MAX) return std::max(a, b);
      if (op == MPI_MIN) return std::min(a, b);
    }
    if (op == MPI_PROD) return a * b;
    return a + b;
  }
  template <typename T> concept pod = std::is_arithmetic_v<T> or std::is_same_v<T, std::complex<double>>;
  template <pod T> T all_reduce(T x, communicator = {}, MPI_Op op = MPI_SUM) {
    auto v = allgather_(&x, sizeof(T));
    T r{};
    for (size_t i = 0; i < v.size(); ++i) {
      T y;
      memcpy(&y, v[i].data(), sizeof(T));
      r = i ? comb_(r, y, op) : y;
    }
    return r;
  }
  template <pod T> T reduce(T x, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    T r = all_reduce(x, c, op);
    return all || c.rank() == root ? r : T{};
  }
  template <pod T> void broadcast(T &x, communicator = {}, int root = 0) {
    auto v = allgather_(&x, sizeof(T));
    memcpy(&x, v[root].data(), sizeof(T));
  }
  template <pod T> std::vector<T> all_reduce(std::vector<T> const &x, communicator c = {}, MPI_Op op = MPI_SUM) {
    std::vector<T> r;
    for (auto const &y : x) r.push_back(all_reduce(y, c, op));
    return r;
  }
  template <pod T> std::vector<T> reduce(std::vector<T> const &x, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    std::vector<T> r;
    for (auto const &y : x) r.push_back(reduce(y, c, root, all, op));
    return r;
  }
} // namespace mpi
