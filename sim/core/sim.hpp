// Deterministic simulator: interface seen by the stand-in libraries (mpi, h5, nda) and by the workloads.
// Everything here is implemented in core.cpp (the runner executable); each simulated rank runs its own
// copy of the workload shared object, so statics of the real TRIQS code are per simulated process.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {

  // ---------------------------------------------------------------- PRNG used for plan generation and derived data
  inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  inline uint64_t mix(uint64_t a, uint64_t b) { return mix(mix(a) ^ (b * 0xda942042e4dd58b5ULL + 0x1234567)); }
  struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t next() { return mix(s += 0x9e3779b97f4a7c15ULL); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); } // inclusive
    double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return uniform() < p; }
    template <class T> T const &pick(std::vector<T> const &v) { return v[below(v.size())]; }
  };

  // ---------------------------------------------------------------- the plan: one run is a pure function of it
  struct Op {
    int rank; // -1: all ranks
    std::string name;
    std::vector<int64_t> a;
    int64_t arg(size_t i, int64_t d = 0) const { return i < a.size() ? a[i] : d; }
  };
  struct Fault {
    std::string kind;
    std::vector<int64_t> a;
    int64_t arg(size_t i, int64_t d = 0) const { return i < a.size() ? a[i] : d; }
  };
  struct Plan {
    std::string workload;
    uint64_t seed = 0;
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    std::vector<Fault> faults;
    bool prng      = true; // scheduler decisions from the PRNG (else from dec, default 0)
    int64_t permil = 500;  // probability of a non default decision
    std::map<std::string, uint64_t> dec;
    int64_t get(std::string const &k, int64_t d = 0) const {
      auto it = cfg.find(k);
      return it == cfg.end() ? d : it->second;
    }
  };

  Plan const &plan();
  inline int64_t cfg(std::string const &k, int64_t d = 0) { return plan().get(k, d); }

  // ---------------------------------------------------------------- running
  int rank();                  // simulated process currently running
  int nranks();                // number of simulated processes
  int64_t now();               // simulated time [ns]
  void step(int64_t ns);       // burn simulated time: a scheduling point
  void point(char const *w);   // a preemption point for signals (no scheduling)
  uint64_t decide(char const *kind, uint64_t n); // a scheduler decision in [0,n); 0 is the quiet default
  void block(std::function<bool()> ready, char const *what); // park this rank until ready()
  void wake();                 // re-evaluate parked ranks (called by whoever changes shared state)
  void at(int64_t delay_ns, std::function<void()> f); // run f on the scheduler at now+delay
  int64_t delay(char const *kind); // a message delay [ns]

  [[noreturn]] void violation(char const *cls, char const *fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void harness_error(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
  [[noreturn]] void finish_now(); // end the run, property held
  void trace(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
  void probe(char const *name, int64_t n = 1);  // "this rare condition was reached"
  void fired(char const *kind, int64_t n = 1);  // a fault was really injected
  void state(uint64_t h);                       // a state reached (coverage measure)

  // crash this simulated process here: its memory is gone, wl_restart runs in a fresh one
  [[noreturn]] void crash_self();
  bool crash_allowed();
  int incarnation();           // 0 at first, then +1 at each restart

  // the n-th operator new from now throws bad_alloc (0: none)
  void fail_new(int64_t n);
  int64_t fail_new_left();

  // aborting everything (MPI_Abort)
  [[noreturn]] void abort_all(int code);

  // ---------------------------------------------------------------- I/O faults: called by the storage stand-in
  enum class Io { ok, error, crash };
  // called before each storage operation; the plan's "io" faults decide
  Io io_op(char const *what);
  int64_t io_count();

  // ---------------------------------------------------------------- shared world of the workload (lives in the runner)
  void *&world();

  // objects shared by all simulated processes (state of the stand-ins), by name
  std::shared_ptr<void> &shared(std::string const &key);

  // ---------------------------------------------------------------- clocks
  void jump_realtime(int64_t ns);  // wall clock jump (NTP, DST, administrator) on this rank
  int64_t mono_ns();               // this rank's monotonic clock
  // ---------------------------------------------------------------- signals
  void deliver(int rank, int signo);        // asynchronous delivery as the kernel does
  bool has_handler(int rank, int signo);    // not SIG_DFL/SIG_IGN
  int  disposition(int rank, int signo);    // 0 default, 1 ignored, 2 handler
  // baseline handlers, installed by the "user" before TRIQS
  void *handler_ptr(int rank, int signo);
  uint64_t blocked_mask(int rank);
  int signals_killed(int rank);             // a signal hit a default disposition
  // single stepping of the code under test: "step s of window w" signals of the plan are delivered there
  void step_begin();
  void step_end();
  int64_t step_count();
  int window();                             // index of the current/last window
  bool in_handler();
  // every signal the simulated kernel handed over (fixed size log, async-signal-safe)
  struct SigRec {
    int rank, signo, window;
    void *handler;          // as installed at that moment; nullptr: default action, (void*)1: ignored
    int64_t begin, end;     // ticks: handler executions overlap iff the intervals do
  };
  int sig_log_size();
  SigRec const &sig_log(int i);

  // ---------------------------------------------------------------- communication fabric used by the mpi stand-in
  // One collective call (number seq) of a communicator.
  struct Coll {
    int comm = 0;
    uint64_t seq = 0;
    std::string kind;
    int root = 0, n = 0, arrived = 0, left = 0;
    int64_t sig = -1;
    std::vector<char> here;             // member has arrived
    std::vector<std::vector<char>> in;  // its contribution
  };
  enum class Need { none, root, all };
  int comm_create(std::vector<int> const &members, std::string const &key); // same key => same id
  std::vector<int> const &comm_members(int id);
  // member `me` joins the next collective of `comm`, waits for what it needs, then combine() computes its result.
  // sig: what must agree between the members (-1: anything)
  std::vector<char> collective(int comm, int me, std::string const &kind, int root, int64_t sig, std::vector<char> in, Need need,
                               std::function<std::vector<char>(Coll &)> combine);
  uint64_t coll_seq(int comm, int me);
} // namespace sim

// entry points of a workload shared object
extern "C" {
void wl_generate(sim::Rng &, sim::Plan &);
void wl_setup();            // once per run, in instance 0, before the ranks start
void wl_rank();             // body of a simulated process
void wl_finish();           // once per run, in instance 0, when all ranks are done
}
