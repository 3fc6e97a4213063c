#pragma once
#include "./mpi.hpp"
#include <string>

namespace mpi {
  inline void mpi_broadcast(std::string &s, communicator c, int root) {
    long n = (long)s.size();
    broadcast(n, c, root);
    if (c.rank() != root) s.resize(n);
    detail::bcast_raw((void *)s.data(), n, c, root);
  }
} // namespace mpi
