// Deterministic simulator core + runner. See DESIGN.md.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cxxabi.h>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <link.h>
#include <new>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_set>

#define EXPORT __attribute__((visibility("default")))

namespace {

  // =================================================================== result of a run, shared with the parent
  struct RunResult {
    int status; // 0 ok, 1 violation, 2 harness error
    char cls[96];
    char msg[1500];
    uint64_t trace_hash, sched_hash;
    int64_t sim_ns;
    uint64_t n_sched, n_steps_ss;
    uint64_t n_states;
    uint64_t states[512];
    char counters[16384];
    size_t dec_len;
    char dec[1 << 20];
    size_t log_len;
    char log[1 << 20];
  };
  RunResult *R = nullptr;
  bool want_log = false;

  // =================================================================== state of the run
  struct Rank {
    int id       = 0;
    void *lib    = nullptr;
    void (*entry)() = nullptr;
    ucontext_t ctx;
    char *stack = nullptr;
    bool started = false, done = false;
    bool parked = false;
    std::function<bool()> ready;
    std::string parked_on;
    int incarnation = 0;
    char eh[16]     = {};
    int64_t rt_off = 0, mono_off = 0;
    struct sigaction sa[65];
    uint64_t blocked = 0, pending = 0;
    int handler_depth = 0, killed = 0;
    uint64_t points = 0, io = 0;
    int window = -1;
    // pristine image of the writable segments
    struct Seg {
      char *p;
      size_t n;
      std::vector<char> img;
    };
    std::vector<Seg> segs;
  };

  constexpr size_t STACK = 8 << 20;
  std::vector<Rank> ranks;
  int cur = -1; // running rank, -1: scheduler
  ucontext_t sched_ctx;
  bool in_sim = false;
  sim::Plan P;
  int64_t T = 0; // simulated time
  uint64_t seqno = 0;
  uint64_t nsched = 0;
  uint64_t sched_limit = 2000000;
  void *world_ptr = nullptr;

  struct Ev {
    int64_t at;
    uint64_t seq;
    int rank; // >=0 resume rank; -1 call f
    std::function<void()> f;
  };
  struct EvLess {
    bool operator()(Ev const &a, Ev const &b) const { return a.at != b.at ? a.at > b.at : a.seq > b.seq; }
  };
  std::vector<Ev> heap;
  std::map<std::string, int64_t> counters;
  std::map<std::string, uint64_t> dec_counter;
  std::set<uint64_t> states;
  std::map<std::string, std::vector<std::pair<int64_t, int64_t>>> dummy;

  // async-signal faults of the plan, prepared as plain arrays
  struct SigAt {
    int rank;
    int64_t where; // point index or step index
    int signo;
    int window; // -1: point based
    bool used;
    bool in_window = false;
  };
  std::vector<SigAt> sig_points, sig_steps;
  struct IoAt {
    int rank;
    int64_t idx;
    int kind;
    bool used;
  };
  std::vector<IoAt> io_faults;

  int64_t ss_count = 0;
  int ss_window    = -1;
  volatile bool ss_on = false;

  uint64_t fnv(uint64_t h, void const *p, size_t n) {
    auto c = (unsigned char const *)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL;
    return h;
  }

  void push_event(int64_t at, int rank, std::function<void()> f) {
    heap.push_back(Ev{at, seqno++, rank, std::move(f)});
    std::push_heap(heap.begin(), heap.end(), EvLess{});
  }

  void flush_result() {
    R->sim_ns  = T;
    R->n_sched = nsched;
    std::string s;
    for (auto &[k, v] : counters) s += k + " " + std::to_string(v) + "\n";
    strncpy(R->counters, s.c_str(), sizeof(R->counters) - 1);
    R->n_states = 0;
    for (auto h : states) {
      if (R->n_states >= 512) break;
      R->states[R->n_states++] = h;
    }
  }

  int (*real_sigaction)(int, const struct sigaction *, struct sigaction *) = nullptr;

  [[noreturn]] void end_run(int status, char const *cls, char const *msg) {
    ss_on  = false;
    in_sim = false;
    if (R->status == -1) {
      R->status = status;
      strncpy(R->cls, cls, sizeof(R->cls) - 1);
      strncpy(R->msg, msg, sizeof(R->msg) - 1);
      flush_result();
    }
    _exit(0);
  }
} // namespace

// =================================================================== memory: seeded fill pattern, overflow canaries
namespace {
  struct Hdr {
    size_t n;
    uint64_t magic;
  };
  constexpr uint64_t MAGIC = 0xA110C8EDB10C0DE5ULL, DEADM = 0xDEADDEADDEADBEEFULL;
  unsigned char fill_byte  = 0xA5;
  uint64_t fill_word       = 0;
  int alloc_depth[64];

  // Allocations made inside a run come from an arena of their own: their addresses, and the instructions the
  // allocator executes, depend on the run alone and not on what the runner did before.
  char *arena = nullptr, *arena_cur = nullptr, *arena_end = nullptr;
  constexpr size_t ARENA = 3ULL << 30;
  struct Free {
    Free *next;
  };
  Free *bins[48];
  inline int bin_of(size_t n) { // n >= 1: smallest b with 2^b >= n, at least 32 bytes
    int b = n <= 32 ? 5 : 64 - __builtin_clzll(n - 1);
    return b;
  }
  inline void *raw_alloc(size_t n) {
    if (!in_sim) return malloc(n);
    int b = bin_of(n);
    if (b >= 40) return nullptr;
    if (bins[b]) {
      Free *f = bins[b];
      bins[b] = f->next;
      return f;
    }
    size_t sz = (size_t)1 << b;
    if (b > 16) sz = (n + 15) & ~(size_t)15; // big blocks are not rounded up, nor reused
    if (arena_cur + sz > arena_end) return nullptr;
    char *p = arena_cur;
    arena_cur += sz;
    return p;
  }
  inline void raw_free(void *p, size_t n) {
    if ((char *)p < arena || (char *)p >= arena_end) {
      if (!in_sim) free(p);
      return; // allocated by the runner, freed in the run: leave the runner's heap alone
    }
    int b = bin_of(n);
    if (b > 16) return;
    auto f  = (Free *)p;
    f->next = bins[b];
    bins[b] = f;
  }

  inline int adi() { return cur >= 0 ? cur : 63; }

  void check_reentry(char const *what) {
    if (in_sim && cur >= 0 && ranks[cur].handler_depth > 0 && alloc_depth[adi()] > 0)
      sim::violation("handler-reenters-allocator", "the signal handler calls %s while the interrupted code is inside the allocator (undefined behaviour: deadlock or corrupted heap)",
                     what);
  }

  void *do_alloc(size_t n) {
    check_reentry("operator new");
    int d = adi();
    alloc_depth[d]++;
    char *p = (char *)raw_alloc(n + sizeof(Hdr) + 8);
    if (!p) {
      alloc_depth[d]--;
      return nullptr;
    }
    auto h   = (Hdr *)p;
    h->n     = n;
    h->magic = MAGIC;
    char *u  = p + sizeof(Hdr);
    if (in_sim) {
      uint64_t w = fill_word;
      size_t i   = 0;
      for (; i + 8 <= n; i += 8) {
        memcpy(u + i, &w, 8);
      }
      for (; i < n; ++i) u[i] = (char)fill_byte;
    }
    memcpy(u + n, &MAGIC, 8);
    alloc_depth[d]--;
    return u;
  }
  void do_free(void *u) {
    if (!u) return;
    check_reentry("operator delete");
    int d = adi();
    alloc_depth[d]++;
    char *p = (char *)u - sizeof(Hdr);
    auto h  = (Hdr *)p;
    if (h->magic != MAGIC) {
      if (in_sim) sim::violation("heap-corruption", "invalid or double delete (block header destroyed)");
      _exit(77);
    }
    uint64_t t;
    memcpy(&t, (char *)u + h->n, 8);
    if (t != MAGIC && in_sim) sim::violation("heap-overflow", "a heap block of %zu bytes was written beyond its end", h->n);
    size_t nn = h->n;
    h->magic  = DEADM;
    if (in_sim) memset(u, 0xDD, nn);
    raw_free(p, nn + sizeof(Hdr) + 8);
    alloc_depth[d]--;
  }
} // namespace
namespace {
  int64_t new_countdown = 0;
}
EXPORT void *operator new(size_t n) {
  if (new_countdown > 0 && --new_countdown == 0) throw std::bad_alloc{};
  void *p = do_alloc(n);
  if (!p) throw std::bad_alloc{};
  return p;
}
EXPORT void *operator new[](size_t n) { return operator new(n); }
EXPORT void *operator new(size_t n, std::nothrow_t const &) noexcept { return do_alloc(n); }
EXPORT void *operator new[](size_t n, std::nothrow_t const &) noexcept { return do_alloc(n); }
EXPORT void operator delete(void *p) noexcept { do_free(p); }
EXPORT void operator delete[](void *p) noexcept { do_free(p); }
EXPORT void operator delete(void *p, size_t) noexcept { do_free(p); }
EXPORT void operator delete[](void *p, size_t) noexcept { do_free(p); }
EXPORT void operator delete(void *p, std::nothrow_t const &) noexcept { do_free(p); }
EXPORT void operator delete[](void *p, std::nothrow_t const &) noexcept { do_free(p); }

// =================================================================== fibers
namespace {
  void switch_to_sched() {
    Rank &r = ranks[cur];
    auto *g = (char *)abi::__cxa_get_globals();
    memcpy(r.eh, g, 16);
    swapcontext(&r.ctx, &sched_ctx);
    g = (char *)abi::__cxa_get_globals();
    memcpy(g, r.eh, 16);
  }
  void fiber_main() {
    Rank &r = ranks[cur];
    try {
      r.entry();
    } catch (std::exception const &e) {
      sim::violation("unexpected-exception", "rank %d: exception escaped from the simulated process: %s", r.id, e.what());
    } catch (...) { sim::violation("unexpected-exception", "rank %d: exception escaped from the simulated process", r.id); }
    ranks[cur].done = true;
    switch_to_sched();
    abort();
  }
  void start_fiber(int id) {
    Rank &r = ranks[id];
    if (!r.stack) {
      r.stack = (char *)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      mprotect(r.stack, 4096, PROT_NONE);
    }
    getcontext(&r.ctx);
    r.ctx.uc_stack.ss_sp   = r.stack + 4096;
    r.ctx.uc_stack.ss_size = STACK;
    r.ctx.uc_link          = nullptr;
    makecontext(&r.ctx, (void (*)())fiber_main, 0);
    r.started = true;
    r.done    = false;
    r.parked  = false;
    memset(r.eh, 0, 16);
    push_event(T, id, nullptr);
  }
  void resume(int id) {
    cur = id;
    if (++nsched > sched_limit) {
      char b[200];
      snprintf(b, 200, "no end after %llu scheduling steps (simulated time %.3f s)", (unsigned long long)nsched, T * 1e-9);
      end_run(1, "no-progress", b);
    }
    uint64_t x    = (uint64_t)id;
    R->sched_hash = fnv(R->sched_hash, &x, 1);
    auto *g       = (char *)abi::__cxa_get_globals();
    char save[16];
    memcpy(save, g, 16);
    memcpy(g, ranks[id].eh, 16);
    swapcontext(&sched_ctx, &ranks[id].ctx);
    g = (char *)abi::__cxa_get_globals();
    memcpy(g, save, 16);
    cur = -1;
  }
  void try_unpark() {
    // deterministic: in rank order, each unparked rank resumes after its own wake-up delay
    for (auto &r : ranks)
      if (r.parked && !r.done && r.ready && r.ready()) {
        r.parked  = false;
        int keep  = cur;
        cur       = r.id;
        int64_t d = sim::delay("wake");
        cur       = keep;
        push_event(T + d, r.id, nullptr);
      }
  }
  void restore_image(Rank &r) {
    for (auto &s : r.segs) memcpy(s.p, s.img.data(), s.n);
  }
} // namespace

namespace {
  void snapshot_images() {
    for (auto &r : ranks) {
      struct link_map *lm = nullptr;
      dlinfo(r.lib, RTLD_DI_LINKMAP, &lm);
      struct Arg {
        struct link_map *lm;
        Rank *r;
      } a{lm, &r};
      dl_iterate_phdr(
         [](struct dl_phdr_info *i, size_t, void *d) -> int {
           auto a = (Arg *)d;
           if (i->dlpi_addr != a->lm->l_addr) return 0;
           uintptr_t relro_b = 0, relro_e = 0;
           for (int k = 0; k < i->dlpi_phnum; ++k)
             if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
               relro_b = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
               relro_e = (relro_b + i->dlpi_phdr[k].p_memsz) & ~(uintptr_t)4095;
             }
           for (int k = 0; k < i->dlpi_phnum; ++k) {
             auto &ph = i->dlpi_phdr[k];
             if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
             uintptr_t b = i->dlpi_addr + ph.p_vaddr, e = b + ph.p_memsz;
             if (relro_e > b && relro_b <= b) b = relro_e;
             if (b >= e) continue;
             Rank::Seg s;
             s.p = (char *)b;
             s.n = e - b;
             s.img.assign(s.p, s.p + s.n);
             a->r->segs.push_back(std::move(s));
           }
           return 1;
         },
         &a);
    }
  }
} // namespace

// =================================================================== public API
namespace sim {
  EXPORT Plan const &plan() { return P; }
  EXPORT int rank() { return cur < 0 ? 0 : cur; }
  EXPORT int nranks() { return (int)ranks.size(); }
  EXPORT int64_t now() { return T; }
  EXPORT void *&world() { return world_ptr; }
  EXPORT int incarnation() { return cur < 0 ? 0 : ranks[cur].incarnation; }

  EXPORT void violation(char const *cls, char const *fmt, ...) {
    in_sim = false;
    ss_on  = false;
    char b[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    end_run(1, cls, b);
  }
  EXPORT void harness_error(char const *fmt, ...) {
    in_sim = false;
    ss_on  = false;
    char b[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    end_run(2, "harness", b);
  }
  EXPORT void finish_now() { end_run(0, "", ""); }

  EXPORT void trace(char const *fmt, ...) {
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    char h[64];
    int m         = snprintf(h, sizeof h, "[%lld r%d] ", (long long)T, cur);
    R->trace_hash = fnv(fnv(R->trace_hash, h, m), b, n);
    if (want_log && R->log_len + n + m + 2 < sizeof(R->log)) {
      memcpy(R->log + R->log_len, h, m);
      memcpy(R->log + R->log_len + m, b, n);
      R->log[R->log_len + m + n] = '\n';
      R->log_len += n + m + 1;
    }
  }
  EXPORT void probe(char const *name, int64_t n) { counters[std::string("probe ") + name] += n; }
  EXPORT void fired(char const *name, int64_t n) { counters[std::string("fault ") + name] += n; }
  EXPORT void state(uint64_t h) { states.insert(h); }

  EXPORT uint64_t decide(char const *kind, uint64_t n) {
    if (n <= 1) return 0;
    std::string key = std::to_string(cur) + ":" + kind;
    uint64_t c      = dec_counter[key]++;
    std::string k   = key + ":" + std::to_string(c);
    uint64_t v      = 0;
    if (P.prng) {
      uint64_t h = mix(mix(P.seed, fnv(1469598103934665603ULL, key.data(), key.size())), c);
      if ((int64_t)(h % 1000) < P.permil) {
        v = mix(h) % n;
        if (v) {
          int m = snprintf(R->dec + R->dec_len, sizeof(R->dec) - R->dec_len, "%s %llu\n", k.c_str(), (unsigned long long)v);
          if (R->dec_len + m < sizeof(R->dec) - 100) R->dec_len += m;
        }
      }
    } else {
      auto it = P.dec.find(k);
      if (it != P.dec.end()) v = it->second % n;
    }
    return v;
  }

  EXPORT int64_t delay(char const *kind) {
    // quiet default: 1 us; otherwise from 2 us to ~ seconds, log-uniform
    uint64_t v = decide(kind, 64);
    if (v == 0) return 1000;
    static const int64_t base[8] = {2000, 10000, 70000, 400000, 3000000, 20000000, 200000000, 1500000000};
    return base[v % 8] * (1 + (int64_t)(v / 8));
  }

  EXPORT void step(int64_t ns) {
    if (cur < 0) return;
    bool s = ss_on;
    ss_on  = false;
    push_event(T + (ns < 1 ? 1 : ns), cur, nullptr);
    switch_to_sched();
    ss_on = s;
  }
  EXPORT void block(std::function<bool()> ready, char const *what) {
    if (cur < 0) return;
    if (ready()) return;
    Rank &r     = ranks[cur];
    r.parked    = true;
    r.parked_on = what;
    r.ready     = std::move(ready);
    switch_to_sched();
  }
  EXPORT void wake() { try_unpark(); }
  EXPORT void at(int64_t d, std::function<void()> f) { push_event(T + d, -1, std::move(f)); }

  EXPORT bool crash_allowed() { return true; }
  EXPORT void fail_new(int64_t n) { new_countdown = n; }
  EXPORT int64_t fail_new_left() { return new_countdown; }
  EXPORT void crash_self() {
    Rank &r = ranks[cur];
    trace("CRASH");
    fired("crash");
    r.incarnation++;
    r.parked  = false;
    r.blocked = r.pending = 0;
    r.handler_depth       = 0;
    alloc_depth[cur]      = 0;
    memset(r.sa, 0, sizeof r.sa);
    restore_image(r);
    int id = cur;
    // the new incarnation starts on a fresh stack
    r.stack = nullptr;
    start_fiber(id);
    // leave: never resumed
    ucontext_t trash;
    memset(r.eh, 0, 16);
    swapcontext(&trash, &sched_ctx);
    abort();
  }
  EXPORT void abort_all(int code) {
    trace("MPI_Abort %d", code);
    counters["probe mpi_abort"]++;
    // every simulated process is gone; the workload's finish() judges
    for (auto &r : ranks) {
      r.done   = true;
      r.parked = false;
    }
    heap.clear();
    P.cfg["_aborted"] = code ? code : 1;
    switch_to_sched();
    abort();
  }

  EXPORT int64_t io_count() { return cur < 0 ? 0 : (int64_t)ranks[cur].io; }
  EXPORT Io io_op(char const *what) {
    if (cur < 0) return Io::ok;
    int64_t idx = (int64_t)ranks[cur].io++;
    for (auto &f : io_faults)
      if (!f.used && f.rank == cur && f.idx == idx) {
        f.used = true;
        trace("IOFAULT %s #%lld kind %d", what, (long long)idx, f.kind);
        if (f.kind == 0) {
          fired("io-error");
          return Io::error;
        }
        fired("io-crash");
        return Io::crash;
      }
    return Io::ok;
  }

  // ---------------------------------------------------------------- clocks
  EXPORT void jump_realtime(int64_t ns) {
    if (cur >= 0) ranks[cur].rt_off += ns;
    trace("CLOCKJUMP %lld", (long long)ns);
    fired("clock-jump");
  }
  EXPORT int64_t mono_ns() { return T + (cur >= 0 ? ranks[cur].mono_off : 0); }

  static void set_tf() {
    __asm__ volatile("lea -128(%%rsp), %%rsp\n pushfq\n orq $0x100, (%%rsp)\n popfq\n lea 128(%%rsp), %%rsp\n" ::: "memory", "cc");
  }
  static void clear_tf() {
    __asm__ volatile("lea -128(%%rsp), %%rsp\n pushfq\n andq $~0x100, (%%rsp)\n popfq\n lea 128(%%rsp), %%rsp\n" ::: "memory", "cc");
  }
  // ---------------------------------------------------------------- signals
  namespace {
    SigRec siglog[512];
    int n_siglog    = 0;
    int64_t sigtick = 0;
    void run_handler(int rk, int signo) {
      Rank &r = ranks[rk];
      auto sa = r.sa[signo];
      int me  = n_siglog < 512 ? n_siglog++ : 511;
      int64_t where[3] = {r.window, ss_on ? ss_count : -1, signo};
      R->sched_hash    = fnv(R->sched_hash, where, sizeof where);
      siglog[me] = SigRec{rk, signo, r.window, (void *)sa.sa_handler, sigtick++, INT64_MAX};
      if (sa.sa_handler == SIG_IGN) return;
      if (sa.sa_handler == SIG_DFL) {
        r.killed++;
        trace("signal %d hits the default disposition", signo);
        return;
      }
      uint64_t old = r.blocked;
      uint64_t m   = 0;
      for (int i = 1; i < 64; ++i)
        if (sigismember(&sa.sa_mask, i) == 1) m |= 1ULL << i;
      r.blocked |= m;
      if (!(sa.sa_flags & SA_NODEFER)) r.blocked |= 1ULL << signo;
      if (sa.sa_flags & SA_RESETHAND) r.sa[signo].sa_handler = SIG_DFL;
      r.handler_depth++;
      if (sa.sa_flags & SA_SIGINFO) {
        siginfo_t si;
        memset(&si, 0, sizeof si);
        si.si_signo = signo;
        ucontext_t uc;
        memset(&uc, 0, sizeof uc);
        if (ss_on) set_tf(); // the handler itself is stepped as well: another signal can nest
        sa.sa_sigaction(signo, &si, &uc);
        if (ss_on) clear_tf();
      } else {
        if (ss_on) set_tf();
        sa.sa_handler(signo);
        if (ss_on) clear_tf();
      }
      r.handler_depth--;
      r.blocked      = old;
      siglog[me].end = sigtick++;
    }
    void flush_pending(int rk) {
      Rank &r = ranks[rk];
      for (int guard = 0; guard < 200; ++guard) {
        uint64_t can = r.pending & ~r.blocked;
        if (!can) return;
        int s = __builtin_ctzll(can);
        r.pending &= ~(1ULL << s);
        run_handler(rk, s);
      }
    }
  } // namespace
  EXPORT void deliver(int rk, int signo) {
    Rank &r = ranks[rk];
    r.pending |= 1ULL << signo;
    flush_pending(rk);
  }
  EXPORT bool has_handler(int rk, int s) { return disposition(rk, s) == 2; }
  EXPORT int disposition(int rk, int s) {
    auto h = ranks[rk].sa[s].sa_handler;
    return h == SIG_DFL ? 0 : (h == SIG_IGN ? 1 : 2);
  }
  EXPORT void *handler_ptr(int rk, int s) { return (void *)ranks[rk].sa[s].sa_handler; }
  EXPORT uint64_t blocked_mask(int rk) { return ranks[rk].blocked; }
  EXPORT int signals_killed(int rk) { return ranks[rk].killed; }
  EXPORT bool in_handler() { return cur >= 0 && ranks[cur].handler_depth > 0; }

  EXPORT void point(char const *w) {
    if (cur < 0) return;
    int64_t idx = (int64_t)ranks[cur].points++;
    for (auto &s : sig_points)
      if (!s.used && s.rank == cur && s.where == idx) {
        s.used = true;
        trace("SIGNAL %d at point %lld (%s)", s.signo, (long long)idx, w);
        fired("signal");
        deliver(cur, s.signo);
      }
  }

  // ---------------------------------------------------------------- single stepping
  static void on_trap(int, siginfo_t *, void *uc_) {
    auto uc = (ucontext_t *)uc_;
    if (!ss_on) {
      uc->uc_mcontext.gregs[REG_EFL] &= ~0x100LL;
      return;
    }
    int64_t c = ss_count++;
    for (auto &s : sig_steps)
      if (!s.used && s.rank == cur && s.window == ss_window && s.where == c) {
        s.used = s.in_window = true;
        deliver(cur, s.signo);
      }
  }
  EXPORT void step_begin() {
    Rank &r   = ranks[cur];
    ss_window = ++r.window;
    ss_count  = 0;
    // anything to inject in this window? otherwise run at full speed, but keep counting when asked to
    bool any = false;
    for (auto &s : sig_steps)
      if (!s.used && s.rank == cur && s.window == ss_window) any = true;
    if (!any && !P.get("ss_always")) return;
    ss_on = true;
    set_tf();
  }
  EXPORT void step_end() {
    bool was = ss_on;
    if (was) clear_tf();
    ss_on = false;
    R->n_steps_ss += ss_count;
    // signals planned beyond the end of the window arrive right here
    for (auto &s : sig_steps)
      if (s.rank == cur && s.window == ss_window) {
        if (!s.used) {
          s.used = true;
          deliver(cur, s.signo);
        }
      }
    for (auto &s : sig_steps)
      if (s.rank == cur && s.window == ss_window) fired(s.in_window ? "signal-inside-call" : "signal-after-call");
    if (was) trace("window %d: %lld instructions", ss_window, (long long)ss_count);
  }
  EXPORT int64_t step_count() { return ss_count; }
  EXPORT int window() { return ranks[cur].window; }
  EXPORT int sig_log_size() { return n_siglog; }
  EXPORT SigRec const &sig_log(int i) { return siglog[i]; }

  // ---------------------------------------------------------------- communication
  namespace {
    std::map<std::string, int> comm_keys;
    std::vector<std::vector<int>> comms;
    std::map<std::pair<int, int>, uint64_t> comm_seq;
    std::map<std::pair<int, uint64_t>, std::shared_ptr<Coll>> colls;
  } // namespace
  EXPORT std::shared_ptr<void> &shared(std::string const &key) {
    static std::map<std::string, std::shared_ptr<void>> m;
    return m[key];
  }
  EXPORT int comm_create(std::vector<int> const &m, std::string const &key) {
    auto it = comm_keys.find(key);
    if (it != comm_keys.end()) return it->second;
    comms.push_back(m);
    comm_keys[key] = (int)comms.size() - 1;
    return (int)comms.size() - 1;
  }
  EXPORT std::vector<int> const &comm_members(int id) { return comms[id]; }
  EXPORT uint64_t coll_seq(int comm, int me) { return comm_seq[{comm, me}]; }
  EXPORT std::vector<char> collective(int comm, int me, std::string const &kind, int root, int64_t sig, std::vector<char> in, Need need,
                                      std::function<std::vector<char>(Coll &)> combine) {
    point("mpi-enter");
    // time to enter: local jitter
    step(200 + delay("enter"));
    uint64_t s = comm_seq[{comm, me}]++;
    auto &sp   = colls[{comm, s}];
    int n      = (int)comms[comm].size();
    if (!sp) {
      sp       = std::make_shared<Coll>();
      sp->comm = comm;
      sp->seq  = s;
      sp->kind = kind;
      sp->root = root;
      sp->n    = n;
      sp->sig  = sig;
      sp->here.assign(n, 0);
      sp->in.resize(n);
    }
    auto c = sp; // keep alive
    if (c->kind != kind || c->root != root)
      violation("mpi-mismatch", "rank %d calls %s(root %d) where another rank calls %s(root %d) on the same communicator (call %llu): MPI deadlock or corruption", cur,
                kind.c_str(), root, c->kind.c_str(), c->root, (unsigned long long)s);
    if (sig >= 0 && c->sig >= 0 && c->sig != sig)
      violation("mpi-size-mismatch", "rank %d calls %s with %lld elements, another rank with %lld: MPI error or corruption", cur, kind.c_str(), (long long)sig,
                (long long)c->sig);
    if (sig >= 0) c->sig = sig;
    c->in[me]   = std::move(in);
    c->here[me] = 1;
    c->arrived++;
    trace("%s comm %d call %llu", kind.c_str(), comm, (unsigned long long)s);
    counters["probe mpi:" + kind]++;
    wake();
    if (need == Need::all)
      block([c] { return c->arrived == c->n; }, ("MPI " + kind).c_str());
    else if (need == Need::root)
      block([c] { return (bool)c->here[c->root]; }, ("MPI " + kind).c_str());
    auto out = combine(*c);
    c->left++;
    if (c->left == n) colls.erase({comm, s});
    point("mpi-leave");
    return out;
  }
} // namespace sim

// =================================================================== libc seams
extern "C" {
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
  if (in_sim && cur >= 0) {
    bool s = ss_on;
    ss_on  = false;
    sim::point("clock");
    sim::step(40);
    int64_t t;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
      t = 1700000000LL * 1000000000LL + T + ranks[cur].rt_off;
    else
      t = 5000000000LL + T + ranks[cur].mono_off;
    ts->tv_sec  = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    ss_on       = s;
    return 0;
  }
  if (in_sim) {
    ts->tv_sec  = 1700000000;
    ts->tv_nsec = 0;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, ts);
}
EXPORT int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec  = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
EXPORT clock_t clock() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * CLOCKS_PER_SEC + ts.tv_nsec / 1000;
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *) {
  if (in_sim && cur >= 0) {
    sim::step(a->tv_sec * 1000000000LL + a->tv_nsec + sim::delay("oversleep") - 1000);
    return 0;
  }
  return (int)syscall(SYS_nanosleep, a, nullptr);
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *) {
  struct timespec b = *a;
  if (fl & TIMER_ABSTIME) {
    struct timespec n;
    clock_gettime(c, &n);
    int64_t d = (a->tv_sec - n.tv_sec) * 1000000000LL + (a->tv_nsec - n.tv_nsec);
    if (d < 0) d = 0;
    b.tv_sec  = d / 1000000000;
    b.tv_nsec = d % 1000000000;
  }
  return nanosleep(&b, nullptr);
}
EXPORT int usleep(useconds_t u) {
  struct timespec ts {
    (time_t)(u / 1000000), (long)(u % 1000000) * 1000
  };
  return nanosleep(&ts, nullptr);
}
EXPORT unsigned sleep(unsigned s) {
  struct timespec ts {
    (time_t)s, 0
  };
  nanosleep(&ts, nullptr);
  return 0;
}
EXPORT int sigaction(int s, const struct sigaction *a, struct sigaction *o) noexcept {
  if (!real_sigaction) real_sigaction = (decltype(real_sigaction))dlsym(RTLD_NEXT, "sigaction");
  if (!(in_sim && cur >= 0)) return real_sigaction(s, a, o);
  if (s < 1 || s > 63 || ((s == SIGKILL || s == SIGSTOP) && a)) {
    errno = EINVAL;
    return -1;
  }
  Rank &r = ranks[cur];
  if (o) *o = r.sa[s];
  if (a) r.sa[s] = *a;
  return 0;
}
EXPORT sighandler_t signal(int s, sighandler_t h) noexcept {
  struct sigaction a, o;
  memset(&a, 0, sizeof a);
  a.sa_handler = h;
  a.sa_flags   = SA_RESTART;
  if (sigaction(s, &a, &o) != 0) return SIG_ERR;
  return o.sa_handler;
}
EXPORT int sigprocmask(int how, const sigset_t *set, sigset_t *old) noexcept {
  if (!(in_sim && cur >= 0)) return (int)syscall(SYS_rt_sigprocmask, how, set, old, 8);
  Rank &r = ranks[cur];
  if (old) {
    sigemptyset(old);
    for (int i = 1; i < 64; ++i)
      if (r.blocked >> i & 1) sigaddset(old, i);
  }
  if (set) {
    uint64_t m = 0;
    for (int i = 1; i < 64; ++i)
      if (i != SIGKILL && i != SIGSTOP && sigismember(set, i) == 1) m |= 1ULL << i;
    if (how == SIG_BLOCK)
      r.blocked |= m;
    else if (how == SIG_UNBLOCK)
      r.blocked &= ~m;
    else
      r.blocked = m;
    sim::flush_pending(cur);
  }
  return 0;
}
EXPORT int pthread_sigmask(int how, const sigset_t *set, sigset_t *old) noexcept { return sigprocmask(how, set, old); }
EXPORT int raise(int s) noexcept {
  if (in_sim && cur >= 0 && s != SIGABRT) {
    sim::deliver(cur, s);
    return 0;
  }
  return (int)syscall(SYS_tgkill, getpid(), (pid_t)syscall(SYS_gettid), s);
}
}

// =================================================================== runner
namespace {
  std::string plan_to_text(sim::Plan const &p) {
    std::ostringstream o;
    o << "simplan 1\nworkload " << p.workload << "\nseed " << p.seed << "\n";
    for (auto &[k, v] : p.cfg) o << "cfg " << k << " " << v << "\n";
    for (auto &x : p.ops) {
      o << "op " << x.rank << " " << x.name;
      for (auto a : x.a) o << " " << a;
      o << "\n";
    }
    for (auto &x : p.faults) {
      o << "fault " << x.kind;
      for (auto a : x.a) o << " " << a;
      o << "\n";
    }
    if (p.prng)
      o << "sched prng " << p.permil << "\n";
    else {
      o << "sched list\n";
      for (auto &[k, v] : p.dec) o << "dec " << k << " " << v << "\n";
    }
    return o.str();
  }
  sim::Plan plan_from_text(std::string const &t) {
    sim::Plan p;
    std::istringstream in(t);
    std::string line;
    while (std::getline(in, line)) {
      if (line.empty() || line[0] == '#') continue;
      std::istringstream l(line);
      std::string w;
      l >> w;
      if (w == "workload")
        l >> p.workload;
      else if (w == "seed")
        l >> p.seed;
      else if (w == "cfg") {
        std::string k;
        int64_t v;
        l >> k >> v;
        p.cfg[k] = v;
      } else if (w == "op") {
        sim::Op o;
        l >> o.rank >> o.name;
        int64_t v;
        while (l >> v) o.a.push_back(v);
        p.ops.push_back(o);
      } else if (w == "fault") {
        sim::Fault f;
        l >> f.kind;
        int64_t v;
        while (l >> v) f.a.push_back(v);
        p.faults.push_back(f);
      } else if (w == "sched") {
        std::string m;
        l >> m;
        p.prng = (m == "prng");
        if (p.prng) l >> p.permil;
      } else if (w == "dec") {
        std::string k;
        uint64_t v;
        l >> k >> v;
        p.dec[k] = v;
      }
    }
    return p;
  }

  struct Lib {
    void *h;
    void (*gen)(sim::Rng &, sim::Plan &);
    void (*setup)();
    void (*rank)();
    void (*finish)();
  };
  std::vector<Lib> libs;
  std::string libpath, workload_name;

  void load_libs(int n) {
    while ((int)libs.size() < n) {
      // a private copy of the shared object => a private copy of every static of the code under test
      int in = open(libpath.c_str(), O_RDONLY);
      if (in < 0) {
        perror(libpath.c_str());
        _exit(2);
      }
      struct stat st;
      fstat(in, &st);
      int m = memfd_create("wl", 0);
      std::vector<char> b(st.st_size);
      size_t got = 0;
      while (got < b.size()) {
        auto k = read(in, b.data() + got, b.size() - got);
        if (k <= 0) break;
        got += k;
      }
      close(in);
      size_t put = 0;
      while (put < got) put += write(m, b.data() + put, got - put);
      std::string path = "/proc/self/fd/" + std::to_string(m);
      Lib l;
      l.h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!l.h) {
        fprintf(stderr, "dlopen: %s\n", dlerror());
        _exit(2);
      }
      l.gen    = (decltype(l.gen))dlsym(l.h, "wl_generate");
      l.setup  = (decltype(l.setup))dlsym(l.h, "wl_setup");
      l.rank   = (decltype(l.rank))dlsym(l.h, "wl_rank");
      l.finish = (decltype(l.finish))dlsym(l.h, "wl_finish");
      if (!l.gen || !l.setup || !l.rank || !l.finish) {
        fprintf(stderr, "workload lacks an entry point\n");
        _exit(2);
      }
      libs.push_back(l);
    }
  }

  [[noreturn]] void child_main() {
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    dup2(dn, 2);
    struct rlimit rl {
      8ULL << 30, 8ULL << 30
    };
    setrlimit(RLIMIT_AS, &rl);
    struct rlimit rc {
      0, 0
    };
    setrlimit(RLIMIT_CORE, &rc);
    struct itimerval it {};
    it.it_value.tv_sec = 20;
    setitimer(ITIMER_PROF, &it, nullptr);

    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = sim::on_trap;
    sa.sa_flags     = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGTRAP, &sa, nullptr);

    int n = (int)P.get("ranks", 1);
    ranks.resize(n);
    sched_limit = (uint64_t)P.get("sched_limit", 400000);
    fill_byte   = (unsigned char)(sim::mix(P.seed, 77) | 1);
    fill_word   = sim::mix(P.seed, 78);
    for (int i = 0; i < n; ++i) {
      ranks[i].id    = i;
      ranks[i].lib   = libs[i].h;
      ranks[i].entry = libs[i].rank;
      memset(ranks[i].sa, 0, sizeof ranks[i].sa);
      ranks[i].mono_off = (int64_t)(sim::mix(P.seed, 1000 + i) % 1000000000000ULL);
      ranks[i].rt_off   = P.get("skew") ? (int64_t)(sim::mix(P.seed, 2000 + i) % 2000000000ULL) - 1000000000LL : 0;
    }
    snapshot_images();
    arena     = (char *)mmap((void *)0x200000000000ULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (arena == MAP_FAILED) end_run(2, "harness", "cannot map the arena");
    arena_cur = arena;
    new_countdown = 0;
    arena_end = arena + ARENA;
    for (auto &f : P.faults) {
      if (f.kind == "signal") sig_points.push_back({(int)f.arg(0), f.arg(1), (int)f.arg(2), -1, false});
      if (f.kind == "sigstep") sig_steps.push_back({(int)f.arg(0), f.arg(2), (int)f.arg(3), (int)f.arg(1), false});
      if (f.kind == "io") io_faults.push_back({(int)f.arg(0), f.arg(1), (int)f.arg(2), false});
      if (f.kind == "jump") {
        int rk    = (int)f.arg(0);
        int64_t d = f.arg(2);
        push_event(f.arg(1), -1, [rk, d] {
          if (rk < (int)ranks.size()) {
            ranks[rk].rt_off += d;
            sim::trace("CLOCKJUMP rank %d %lld ns", rk, (long long)d);
            sim::fired("clock-jump");
          }
        });
      }
      if (f.kind == "stall") { // rank, from, duration: every resume in the interval is delayed
      }
    }
    std::vector<int> all;
    for (int i = 0; i < n; ++i) all.push_back(i);
    sim::comm_create(all, "world");
    in_sim = true;
    libs[0].setup();
    for (int i = 0; i < n; ++i) start_fiber(i);
    // event loop
    struct Stall {
      int rank;
      int64_t from, len;
      bool counted;
    };
    std::vector<Stall> stalls;
    for (auto &f : P.faults)
      if (f.kind == "stall") stalls.push_back({(int)f.arg(0), f.arg(1), f.arg(2), false});
    while (true) {
      while (!heap.empty()) {
        std::pop_heap(heap.begin(), heap.end(), EvLess{});
        Ev e = std::move(heap.back());
        heap.pop_back();
        if (e.at > T) T = e.at;
        if (e.rank >= 0) {
          bool moved = false;
          for (auto &s : stalls)
            if (s.rank == e.rank && T >= s.from && T < s.from + s.len) {
              if (!s.counted) {
                s.counted = true;
                sim::fired("stall");
                sim::trace("STALL rank %d", e.rank);
              }
              push_event(s.from + s.len, e.rank, nullptr);
              moved = true;
              break;
            }
          if (moved) continue;
          if (!ranks[e.rank].done) resume(e.rank);
        } else {
          e.f();
          try_unpark();
        }
      }
      // nothing scheduled: everybody done, or a deadlock
      try_unpark();
      if (!heap.empty()) continue;
      bool all_done = true;
      std::string who;
      for (auto &r : ranks)
        if (!r.done) {
          all_done = false;
          who += " rank " + std::to_string(r.id) + " waits in " + (r.parked ? r.parked_on : std::string("?")) + ";";
        }
      if (all_done) break;
      end_run(1, "deadlock", ("all faults over, nothing left to deliver, but:" + who).c_str());
    }
    libs[0].finish();
    end_run(0, "", "");
  }

  // ---- zygote: a process frozen right after the libraries are loaded. Every run is a fork of it, so every run
  // starts from the same process image whatever was run before, in this runner or in another one.
  constexpr int NLIB   = 6;
  constexpr size_t PLANMAX = 4 << 20;
  char *plan_text      = nullptr; // shared
  int zy_req = -1, zy_rep = -1;

  void zygote_main(int req, int rep) {
    char c;
    while (read(req, &c, 1) == 1) {
      pid_t pid = fork();
      if (pid == 0) {
        close(req);
        close(rep);
        P = plan_from_text(plan_text);
        child_main();
      }
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      if (write(rep, &st, sizeof st) != sizeof st) _exit(1);
    }
    _exit(0);
  }
  void start_zygote() {
    load_libs(NLIB);
    plan_text = (char *)mmap(nullptr, PLANMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int a[2], b[2];
    if (pipe(a) || pipe(b)) _exit(2);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(a[1]);
      close(b[0]);
      zygote_main(a[0], b[1]);
    }
    close(a[0]);
    close(b[1]);
    zy_req = a[1];
    zy_rep = b[0];
  }

  // executes plan p in a fresh process image; result in R
  void run_plan(sim::Plan const &p) {
    memset((void *)R, 0, offsetof(RunResult, dec));
    R->log_len    = 0;
    R->status     = -1;
    R->trace_hash = R->sched_hash = 1469598103934665603ULL;
    std::string text = plan_to_text(p);
    if (text.size() + 1 > PLANMAX || p.get("ranks", 1) > NLIB) {
      fprintf(stderr, "plan too large\n");
      _exit(2);
    }
    memcpy(plan_text, text.c_str(), text.size() + 1);
    char c = 'r';
    int st = 0;
    if (write(zy_req, &c, 1) != 1 || read(zy_rep, &st, sizeof st) != sizeof st) {
      fprintf(stderr, "zygote died\n");
      _exit(2);
    }
    if (R->status == -1) {
      R->status = 1;
      if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGKILL) {
          R->status = 2;
          strcpy(R->cls, "harness");
          strcpy(R->msg, "the simulated run was killed (out of memory?)");
        } else if (s == SIGPROF || s == SIGXCPU || s == SIGVTALRM) {
          strcpy(R->cls, "hang");
          strcpy(R->msg, "no scheduling point for 20 s of processor time: the code under test loops");
        } else {
          strcpy(R->cls, "crash");
          snprintf(R->msg, sizeof R->msg, "the code under test died with signal %d (%s)", s, strsignal(s));
        }
      } else {
        strcpy(R->cls, "crash");
        snprintf(R->msg, sizeof R->msg, "the code under test ended the process (exit status %d)", WEXITSTATUS(st));
      }
    }
  }

  std::string jesc(std::string const &s) {
    std::string o;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') {
        o += '\\';
        o += (char)c;
      } else if (c < 32) {
        char b[8];
        snprintf(b, 8, "\\u%04x", c);
        o += b;
      } else
        o += (char)c;
    }
    return o;
  }

  sim::Plan gen_plan(uint64_t seed, std::map<std::string, int64_t> const &over) {
    load_libs(1);
    sim::Plan p;
    p.workload = workload_name;
    p.seed     = seed;
    for (auto &[k, v] : over) p.cfg[k] = v;
    sim::Rng rng(sim::mix(seed, 0xC0FFEE));
    // the generator may read the overrides through plan()
    P = p;
    libs[0].gen(rng, p);
    for (auto &[k, v] : over) p.cfg[k] = v;
    return p;
  }

  void result_json(std::ostream &o, bool log) {
    o << "{\"status\":" << R->status << ",\"cls\":\"" << jesc(R->cls) << "\",\"msg\":\"" << jesc(R->msg) << "\",\"hash\":\"" << std::hex << R->trace_hash << std::dec
      << "\",\"sim_ns\":" << R->sim_ns << ",\"sched\":" << R->n_sched << ",\"dec\":\"" << jesc(std::string(R->dec, R->dec_len)) << "\"";
    if (log) o << ",\"log\":\"" << jesc(std::string(R->log, R->log_len)) << "\"";
    o << "}\n";
  }
} // namespace

int main(int argc, char **argv) {
  // no address space randomisation: uninitialised reads and pointer order repeat
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR_DONE")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NOASLR_DONE", "1", 1);
      setenv("LC_ALL", "C", 1);
      setenv("LD_BIND_NOW", "1", 1);
      setenv("TZ", "UTC", 1);
      execv("/proc/self/exe", argv);
    }
  }
  std::string mode, planfile, out;
  uint64_t seed0 = 1, count = 0;
  double limit = 1e9;
  std::map<std::string, int64_t> over;
  std::set<std::string> ignore;
  int dupl = 16;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx       = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--lib")
      libpath = nx();
    else if (a == "--workload")
      workload_name = nx();
    else if (a == "--gen") {
      mode  = "gen";
      seed0 = std::stoull(nx());
    } else if (a == "--plan") {
      mode     = "plan";
      planfile = nx();
    } else if (a == "--batch") {
      mode  = "batch";
      seed0 = std::stoull(nx());
      count = std::stoull(nx());
    } else if (a == "--limit")
      limit = std::stod(nx());
    else if (a == "--out")
      out = nx();
    else if (a == "--log")
      want_log = true;
    else if (a == "--dup")
      dupl = std::stoi(nx());
    else if (a == "--ignore")
      ignore.insert(nx());
    else if (a == "--cfg") {
      std::string kv = nx();
      auto e         = kv.find('=');
      over[kv.substr(0, e)] = std::stoll(kv.substr(e + 1));
    }
  }
  R = (RunResult *)mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

  start_zygote();
  if (mode == "gen") {
    std::cout << plan_to_text(gen_plan(seed0, over));
    return 0;
  }
  if (mode == "plan") {
    std::ifstream f(planfile);
    std::stringstream ss;
    ss << f.rdbuf();
    auto p = plan_from_text(ss.str());
    run_plan(p);
    result_json(std::cout, want_log);
    return 0;
  }
  if (mode == "batch") {
    struct timespec t0, t1;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
    std::map<std::string, int64_t> cnt;
    std::unordered_set<uint64_t> scheds, traces, sts;
    uint64_t runs = 0, nsch = 0, dups = 0, nss = 0;
    double simt = 0;
    std::string viols;
    std::set<std::string> seen;
    int rc = 0;
    std::string sample;
    for (uint64_t k = 0; k < count; ++k) {
      syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
      if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > limit) break;
      uint64_t seed = seed0 + k;
      auto p        = gen_plan(seed, over);
      run_plan(p);
      runs++;
      if (R->status == 2) {
        viols += (viols.empty() ? "" : ",");
        viols += "{\"seed\":" + std::to_string(seed) + ",\"cls\":\"harness\",\"msg\":\"" + jesc(R->msg) + "\",\"harness\":true}";
        rc = 3;
        break;
      }
      auto h   = R->trace_hash;
      int stat = R->status;
      std::string cls = R->cls, msg = R->msg;
      scheds.insert(R->sched_hash);
      traces.insert(h);
      for (uint64_t i = 0; i < R->n_states; ++i) sts.insert(R->states[i]);
      simt += R->sim_ns * 1e-9;
      nsch += R->n_sched;
      nss += R->n_steps_ss;
      std::istringstream c(R->counters);
      std::string line;
      while (std::getline(c, line)) {
        auto sp = line.rfind(' ');
        cnt[line.substr(0, sp)] += std::stoll(line.substr(sp + 1));
      }
      cnt["probe faults planned"] += (int64_t)p.faults.size();
      cnt["probe ops planned"] += (int64_t)p.ops.size();
      if (sample.empty()) sample = "seed " + std::to_string(seed) + ": " + std::to_string(p.ops.size()) + " ops, " + std::to_string(p.faults.size()) + " faults, "
         + std::to_string(R->n_sched) + " scheduling steps, " + std::to_string(R->sim_ns * 1e-9) + " s simulated";
      if (dupl > 0 && k % dupl == 0 && stat == 0) {
        std::string log1(R->log, R->log_len);
        run_plan(p);
        dups++;
        if (getenv("SIM_DEBUG_DUP") && R->trace_hash != h) std::cerr << log1 << "=====\n" << std::string(R->log, R->log_len);
        if (R->trace_hash != h || R->status != stat) {
          viols += (viols.empty() ? "" : ",");
          viols += "{\"seed\":" + std::to_string(seed) + ",\"cls\":\"nondeterminism\",\"msg\":\"two runs of one seed differ\",\"harness\":true}";
          rc = 3;
          break;
        }
      }
      if (stat == 1) {
        if (!seen.count(cls)) {
          seen.insert(cls);
          viols += (viols.empty() ? "" : ",");
          viols += "{\"seed\":" + std::to_string(seed) + ",\"cls\":\"" + jesc(cls) + "\",\"msg\":\"" + jesc(msg) + "\"}";
        }
        cnt["violation " + cls]++;
        if (!ignore.count(cls) && !ignore.count("*")) {
          rc = 1;
          break;
        }
      }
    }
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
    std::ostringstream o;
    o << "{\"runs\":" << runs << ",\"dup\":" << dups << ",\"seconds\":" << ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9) << ",\"sim_seconds\":" << simt
      << ",\"sched_steps\":" << nsch << ",\"instructions_stepped\":" << nss << ",\"sample\":\"" << jesc(sample) << "\",\"counters\":{";
    bool first = true;
    for (auto &[k, v] : cnt) {
      o << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v;
      first = false;
    }
    o << "},\"violations\":[" << viols << "],\"sched_hashes\":[";
    first = true;
    auto dump = [&](auto &set) {
      bool f = true;
      for (auto x : set) {
        o << (f ? "" : ",") << "\"" << std::hex << x << std::dec << "\"";
        f = false;
      }
    };
    dump(scheds);
    o << "],\"trace_hashes\":[";
    dump(traces);
    o << "],\"state_hashes\":[";
    if (sts.size() < 300000) dump(sts);
    o << "]}\n";
    if (out.empty())
      std::cout << o.str();
    else {
      std::ofstream f(out);
      f << o.str();
    }
    return rc;
  }
  fprintf(stderr, "usage\n");
  return 2;
}
