#pragma once
#include <mpi/mpi.hpp>
#include <nda/nda.hpp>
namespace nda {
  template <typename A>
    requires(get_rank<std::remove_cvref_t<A>> > 0)
  void mpi_broadcast(A &&a, mpi::communicator c = {}, int root = 0) {
    using B = std::remove_cvref_t<A>;
    using T = get_value_t<B>;
    auto sh = a.shape();
    mpi::detail::bcast_raw(sh.data(), sh.size() * sizeof(long), c, root);
    if (c.rank() != root) {
      if constexpr (B::is_view) {
        if (a.shape() != sh) NDA_STUB_BAD("broadcast into a view of another shape");
      } else
        a.resize(sh);
    }
    auto r = make_regular(a);
    if constexpr (is_scalar_v<T>)
      mpi::detail::bcast_raw(r.data(), r.size() * (long)sizeof(T), c, root);
    else
      for (auto &x : r) mpi::broadcast(x, c, root);
    if (c.rank() != root) a.assign_array(r);
  }
  template <typename A>
    requires(get_rank<A> > 0)
  auto mpi_reduce(A const &a, mpi::communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    auto r = make_regular(a), out = r;
    mpi::detail::reduce_raw(r.data(), out.data(), r.size(), c, root, all, op);
    return out;
  }
  template <typename A>
    requires(get_rank<std::remove_cvref_t<A>> > 0)
  void mpi_reduce_in_place(A &&a, mpi::communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    auto r = make_regular(a);
    mpi::detail::reduce_raw(r.data(), r.data(), r.size(), c, root, all, op);
    a.assign_array(r);
  }
  // concatenation along the first dimension
  template <typename A>
    requires(get_rank<A> > 0)
  auto mpi_gather(A const &a, mpi::communicator c = {}, int root = 0, bool all = false) {
    using T = get_value_t<A>;
    auto r  = make_regular(a);
    auto v  = mpi::detail::gather_raw(r.data(), r.size() * (long)sizeof(T), c, root, all);
    auto sh = a.shape();
    long n = 0, slice = 1;
    for (size_t i = 1; i < sh.size(); ++i) slice *= sh[i];
    for (auto const &b : v) n += slice ? (long)(b.size() / sizeof(T)) / slice : 0;
    sh[0] = n;
    typename A::regular_type out(sh);
    char *p = (char *)out.data();
    for (auto const &b : v) {
      if (!b.empty()) memcpy(p, b.data(), b.size());
      p += b.size();
    }
    return out;
  }
  template <typename A>
    requires(get_rank<A> > 0)
  auto mpi_scatter(A const &a, mpi::communicator c = {}, int root = 0, bool = false) {
    using T = get_value_t<A>;
    auto r  = make_regular(a);
    auto sh = r.shape();
    mpi::detail::bcast_raw(sh.data(), sh.size() * sizeof(long), c, root);
    long slice = 1;
    for (size_t i = 1; i < sh.size(); ++i) slice *= sh[i];
    std::vector<std::vector<char>> pieces;
    for (int k = 0; k < c.size(); ++k) {
      auto [b, e] = mpi::detail::chunk(sh[0], c.size(), k);
      if (c.rank() == root)
        pieces.push_back(std::vector<char>((char const *)(r.data() + b * slice), (char const *)(r.data() + e * slice)));
      else
        pieces.emplace_back();
    }
    auto x  = mpi::detail::scatter_raw(pieces, c, root);
    sh[0]   = slice ? (long)(x.size() / sizeof(T)) / slice : 0;
    typename A::regular_type out(sh);
    if (!x.empty()) memcpy((void *)out.data(), x.data(), x.size());
    return out;
  }
} // namespace nda
