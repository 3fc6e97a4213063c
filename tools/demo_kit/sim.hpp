// Minimal stand-in for the simulator under the demonstrations' mpi, h5 and nda: ranks are threads (sim::run), no faults.
#pragma once
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
namespace sim {
  inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  inline uint64_t mix(uint64_t a, uint64_t b) { return mix(mix(a) ^ (b * 0xda942042e4dd58b5ULL + 0x1234567)); }
  struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t next() { return mix(s += 0x9e3779b97f4a7c15ULL); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  };
  struct Plan {
    uint64_t seed = 2;
  };
  inline Plan const &plan() {
    static Plan p;
    return p;
  }
  inline bool world_size_set = false;
  inline int nranks_         = 1;
  inline thread_local int rank_ = 0;
  inline int64_t cfg(std::string const &k, int64_t d = 0) { return k == "mpi_env" ? nranks_ > 1 : d; }
  inline int rank() { return rank_; }
  inline void step(int64_t) {}
  inline void point(char const *) {}
  inline void probe(char const *, int64_t = 1) {}
  inline void trace(char const *, ...) {}
  enum class Io { ok, error, crash };
  inline int io_countdown = -1; // the io_countdown-th operation of the store fails
  inline Io io_op(char const *) { return io_countdown > 0 && --io_countdown == 0 ? Io::error : Io::ok; }
  [[noreturn]] inline void crash_self() { _exit(9); }
  [[noreturn]] inline void abort_all(int) { _exit(77); }
  [[noreturn]] inline void violation(char const *cls, char const *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    std::printf("%s: ", cls);
    std::vprintf(fmt, ap);
    std::printf("\n");
    std::fflush(stdout);
    _exit(1);
  }
  template <typename... T> [[noreturn]] inline void harness_error(char const *fmt, T... t) { violation("stand-in", fmt, t...); }
  inline std::mutex mx;
  inline std::condition_variable cv;
  inline std::shared_ptr<void> &shared(std::string const &key) {
    static std::map<std::string, std::shared_ptr<void>> m;
    return m[key];
  }
  inline int64_t delay(char const *) { return 0; }
  inline void at(int64_t, std::function<void()> f) { f(); }
  inline void wake() { cv.notify_all(); }
  inline void block(std::function<bool()> ready, char const *) {
    while (!ready()) std::this_thread::yield();
  }
  struct Coll {
    int comm = 0;
    uint64_t seq = 0;
    std::string kind;
    int root = 0, n = 0, arrived = 0, left = 0;
    std::vector<std::vector<char>> in;
  };
  enum class Need { none, root, all };
  struct Comm {
    std::vector<int> members;
    std::vector<uint64_t> seq;
    std::map<uint64_t, Coll> pending;
  };
  inline std::map<int, Comm> comms;
  inline std::map<std::string, int> comm_ids;
  inline std::vector<int> const &comm_members(int id) { return comms[id].members; }
  inline int comm_create(std::vector<int> const &m, std::string const &key) {
    auto it = comm_ids.find(key);
    if (it != comm_ids.end()) return it->second;
    int id       = 1 + (int)comm_ids.size();
    comms[id]    = {m, std::vector<uint64_t>(m.size()), {}};
    comm_ids[key] = id;
    return id;
  }
  inline std::vector<char> collective(int comm, int me, std::string const &kind, int root, int64_t, std::vector<char> in, Need, std::function<std::vector<char>(Coll &)> combine) {
    std::unique_lock l(mx);
    auto &c = comms[comm];
    auto s  = c.seq[me]++;
    auto &k = c.pending[s];
    if (k.in.empty()) {
      k.comm = comm;
      k.seq  = s;
      k.kind = kind;
      k.root = root;
      k.n    = (int)c.members.size();
      k.in.resize(k.n);
    } else if (k.kind != kind)
      violation("mismatch", "%s and %s", k.kind.c_str(), kind.c_str());
    k.in[me] = std::move(in);
    ++k.arrived;
    cv.notify_all();
    if (!cv.wait_for(l, std::chrono::seconds(20), [&] { return k.arrived == k.n; })) violation("deadlock", "%s", kind.c_str());
    auto r = combine(k);
    if (++k.left == k.n) c.pending.erase(s);
    return r;
  }
  inline void run(int n, std::function<void()> f) {
    nranks_ = n;
    comms.clear();
    comm_ids.clear();
    std::vector<int> m;
    for (int i = 0; i < n; ++i) m.push_back(i);
    comms[0] = {m, std::vector<uint64_t>(n), {}};
    std::vector<std::thread> t;
    for (int i = 0; i < n; ++i)
      t.emplace_back([i, f] {
        rank_ = i;
        f();
      });
    for (auto &x : t) x.join();
    nranks_ = 1;
  }
} // namespace sim
