#pragma once
#include "./mpi.hpp"
#include <vector>

namespace mpi {
  template <typename T> void mpi_broadcast(std::vector<T> &v, communicator c = {}, int root = 0) {
    long n = (long)v.size();
    broadcast(n, c, root);
    if (c.rank() != root) v.resize(n);
    if constexpr (scalar<T> && !std::is_same_v<T, bool>)
      detail::bcast_raw((void *)v.data(), n * (long)sizeof(T), c, root);
    else
      for (long i = 0; i < n; ++i) broadcast(v[i], c, root);
  }
  template <typename T> auto mpi_reduce(std::vector<T> const &a, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    if constexpr (scalar<T>) {
      std::vector<T> b(a.size());
      detail::reduce_raw(a.data(), b.data(), (long)a.size(), c, root, all, op);
      return b;
    } else {
      using E = std::decay_t<decltype(reduce(a[0], c, root, all, op))>;
      auto go = [&]<typename B>(std::type_identity<B>) {
        std::vector<B> b;
        b.reserve(a.size());
        for (auto const &x : a) b.push_back(B{reduce(x, c, root, all, op)});
        return b;
      };
      if constexpr (is_mpi_lazy<E>) // the operation is done when the lazy object is used
        return go(std::type_identity<typename T::regular_type>{});
      else
        return go(std::type_identity<E>{});
    }
  }
  template <typename T> void mpi_reduce_in_place(std::vector<T> &a, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    if constexpr (scalar<T>)
      detail::reduce_raw(a.data(), a.data(), (long)a.size(), c, root, all, op);
    else
      for (auto &x : a) reduce_in_place(x, c, root, all, op);
  }
  template <typename T> std::vector<T> mpi_gather(std::vector<T> const &a, communicator c = {}, int root = 0, bool all = false) {
    static_assert(scalar<T>);
    auto r = detail::gather_raw(a.data(), (long)(a.size() * sizeof(T)), c, root, all);
    std::vector<T> v;
    for (auto const &b : r) {
      size_t o = v.size(), n = b.size() / sizeof(T);
      v.resize(o + n);
      if (n) memcpy((void *)(v.data() + o), b.data(), b.size());
    }
    return v;
  }
  template <typename T> std::vector<T> mpi_scatter(std::vector<T> const &a, communicator c = {}, int root = 0) {
    static_assert(scalar<T>);
    std::vector<std::vector<char>> pieces;
    for (int r = 0; r < c.size(); ++r) {
      auto [b, e] = detail::chunk((long)a.size(), c.size(), r);
      pieces.push_back(std::vector<char>((char const *)(a.data() + b), (char const *)(a.data() + e)));
    }
    auto x = detail::scatter_raw(pieces, c, root);
    std::vector<T> v(x.size() / sizeof(T));
    if (!v.empty()) memcpy((void *)v.data(), x.data(), x.size());
    return v;
  }
} // namespace mpi
