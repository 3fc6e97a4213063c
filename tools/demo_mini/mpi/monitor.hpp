#pragma once
#include "mpi.hpp"
#include <atomic>
#include <map>
#include <mutex>
namespace mpi {
  struct monitor {
    inline static std::atomic<int> flag[64];
    inline static thread_local int gen = 0;
    int g;
    communicator c;
    explicit monitor(communicator c) : g(gen++ % 64), c(c) {
      c.barrier();
      if (c.rank() == 0) flag[g] = 0;
      c.barrier();
    }
    void request_emergency_stop() { flag[g] = 1; }
    bool emergency_occured() { return flag[g] != 0; }
    void finalize_communications() { c.barrier(); c.barrier(); }
  };
} // namespace mpi
