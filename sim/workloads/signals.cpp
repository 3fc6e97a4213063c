// Workload: the signal handler service under asynchronous signals at instruction granularity.
// Real code: utility/signal_handler.cpp, utility/callbacks.cpp. Oracle: linearisability against a plain list.
#include "sim.hpp"
#include <triqs/utility/callbacks.hpp>
#include <triqs/utility/signal_handler.hpp>
#include <csignal>
#include <set>
#include <vector>

namespace sh = triqs::signal_handler;
static const int SIGS[6] = {SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1, SIGUSR2};

static volatile int user_calls = 0;
static void user_handler(int) { user_calls = user_calls + 1; }

extern "C" __attribute__((visibility("default"))) void wl_generate(sim::Rng &g, sim::Plan &p) {
  p.cfg["ranks"]  = 1;
  p.cfg["user"]   = g.chance(0.4) ? (int64_t)g.below(64) : 0; // which signals the user handled before
  int n           = (int)g.range(2, 14);
  static const std::vector<std::string> kinds = {"start", "stop", "received", "rpop", "last", "pop", "alloc", "clock"};
  p.ops.push_back({0, g.chance(0.8) ? "start" : "clock", {}});
  for (int i = 0; i < n; ++i) {
    int r = (int)g.below(100);
    std::string k = r < 8 ? "start" : r < 18 ? "stop" : r < 38 ? "received" : r < 58 ? "rpop" : r < 70 ? "last" : r < 84 ? "pop" : r < 96 ? "alloc" : "clock";
    p.ops.push_back({0, k, {g.range(0, 5)}});
  }
  int nf = g.chance(0.1) ? 0 : (int)g.range(1, 7);
  std::vector<int> per(p.ops.size());
  for (int i = 0; i < nf; ++i) {
    int64_t w = (int64_t)g.below(p.ops.size());
    if (per[w] >= 4) continue;
    per[w] += 2;
    int64_t lim = g.chance(0.5) ? 60 : g.chance(0.7) ? 400 : 3000;
    p.faults.push_back({"sigstep", {0, w, g.range(0, lim), SIGS[g.below(6)]}});
    if (g.chance(0.3)) p.faults.push_back({"sigstep", {0, w, p.faults.back().a[2] + g.range(0, 30), SIGS[g.below(6)]}});
  }
}

extern "C" __attribute__((visibility("default"))) void wl_setup() {}
extern "C" __attribute__((visibility("default"))) void wl_finish() {}

using L = std::vector<int>;

static std::string show(std::set<L> const &s) {
  std::string o;
  for (auto &l : s) {
    o += "[";
    for (int x : l) o += std::to_string(x) + " ";
    o += "]";
  }
  return o;
}

extern "C" __attribute__((visibility("default"))) void wl_rank() {
  auto const &P = sim::plan();
  int64_t um    = sim::cfg("user");
  void *base[65] = {};
  for (int i = 0; i < 6; ++i)
    if (um >> i & 1) {
      struct sigaction a;
      memset(&a, 0, sizeof a);
      a.sa_handler = user_handler;
      sigaction(SIGS[i], &a, nullptr);
      base[SIGS[i]] = (void *)user_handler;
    }

  std::set<L> states{L{}};
  bool started = false;
  int seen     = 0;

  for (auto const &op : P.ops) {
    bool surely_nonempty = true, surely_empty = true;
    for (auto &l : states) {
      if (l.empty()) surely_nonempty = false;
      if (!l.empty()) surely_empty = false;
    }
    std::string k = op.name;
    if ((k == "last" || k == "pop") && !surely_nonempty) k = "received";
    if (!started && (k == "last" || k == "pop" || k == "rpop")) k = "received";
    int result = -1;
    bool was_started = started;
    sim::step_begin();
    if (k == "start") {
      sh::start();
      started = true;
    } else if (k == "clock") {
      auto f = triqs::utility::clock_callback(op.arg(0) ? 3600 : 0);
      result = f() ? 1 : 0;
      started = true;
    } else if (k == "stop") {
      sh::stop();
      started = false;
    } else if (k == "received")
      result = sh::received() ? 1 : 0;
    else if (k == "rpop")
      result = sh::received(true) ? 1 : 0;
    else if (k == "last")
      result = sh::last();
    else if (k == "pop")
      sh::pop();
    else if (k == "alloc") {
      std::vector<std::vector<int>> v;
      for (int i = 0; i <= op.arg(0); ++i) v.push_back(std::vector<int>(8 + i));
    }
    sim::step_end();
    // what the kernel delivered meanwhile
    std::vector<sim::SigRec> arr, late;
    for (; seen < sim::sig_log_size(); ++seen) {
      auto r       = sim::sig_log(seen);
      bool user    = base[r.signo] != nullptr;
      bool at_base = r.handler == base[r.signo];
      bool fixed   = (k != "start" && k != "clock" && k != "stop");
      if (fixed || (k != "stop" && was_started)) {
        if (was_started && at_base)
          sim::violation("signal-not-caught", "signal %d arrives during '%s' between start and stop, but goes to the %s", r.signo, k.c_str(),
                         user ? "handler installed before start" : "default action");
        if (!was_started && !at_base)
          sim::violation("handler-left-installed", "signal %d arrives during '%s' outside start/stop, but TRIQS still intercepts it instead of the %s", r.signo, k.c_str(),
                         user ? "handler installed before start" : "default action");
      }
      sim::trace("delivered %d during %s: %s", r.signo, k.c_str(), at_base ? "base" : "triqs");
      if (!at_base) arr.push_back(r);
    }
    if (arr.size() > 1) {
      for (size_t i = 0; i + 1 < arr.size(); ++i)
        if (arr[i + 1].begin < arr[i].end) sim::probe("nested signals");
    }
    if (arr.size() > 7) sim::harness_error("too many signals in one call for the oracle");
    // all arrival orders the overlaps allow
    std::set<L> orders;
    {
      L idx(arr.size());
      for (size_t i = 0; i < arr.size(); ++i) idx[i] = (int)i;
      std::sort(idx.begin(), idx.end());
      int guard = 0;
      do {
        bool ok = true;
        for (size_t i = 0; i < idx.size() && ok; ++i)
          for (size_t j = i + 1; j < idx.size() && ok; ++j)
            if (arr[idx[j]].end < arr[idx[i]].begin) ok = false;
        if (ok) {
          L o;
          for (int i : idx) o.push_back(arr[i].signo);
          orders.insert(o);
        }
      } while (++guard < 50000 && std::next_permutation(idx.begin(), idx.end()));
    }
    std::set<L> next;
    for (auto const &l0 : states)
      for (auto const &o : orders)
        for (size_t j = 0; j <= o.size(); ++j) {
          L l = l0;
          for (size_t i = 0; i < j; ++i) l.push_back(o[i]);
          bool ok = true;
          if (k == "received") ok = (result == (l.empty() ? 0 : 1));
          else if (k == "rpop") {
            ok = (result == (l.empty() ? 0 : 1));
            if (ok && !l.empty()) l.pop_back();
          } else if (k == "last")
            ok = !l.empty() && result == l.back();
          else if (k == "pop") {
            if (l.empty()) ok = false;
            else
              l.pop_back();
          }
          for (size_t i = j; i < o.size(); ++i) l.push_back(o[i]);
          if (k == "stop") l.clear();
          if (ok) next.insert(l);
        }
    sim::trace("op %s -> %d (%zu signals)", k.c_str(), result, arr.size());
    if (next.empty())
      sim::violation("signal-history", "'%s' returned %d with %zu signals arriving meanwhile; the received signals, in order of arrival, are %s", k.c_str(), result,
                     arr.size(), show(states).c_str());
    if (k == "clock" && op.arg(0) && result == 1) sim::violation("clock-callback", "a one hour limit expires at once");
    if (k == "clock" && !op.arg(0) && result == 1) sim::violation("clock-callback", "no limit requested, but the callback says stop");
    states = next;
    if (!arr.empty()) sim::probe(("signal during " + k).c_str());
    if (states.size() > 1) sim::probe("ambiguous linearisation");
    sim::step(1000);
  }
  // drain: nothing lost, nothing invented, order kept
  L got;
  while (sh::received() && got.size() < 600) {
    got.push_back(sh::last());
    sh::pop();
  }
  L fwd(got.rbegin(), got.rend());
  if (!states.count(fwd)) {
    std::string g;
    for (int x : fwd) g += std::to_string(x) + " ";
    sim::violation("signal-history", "at the end the handler holds [%s], expected one of %s", g.c_str(), show(states).c_str());
  }
  sh::stop();
  if (sh::received()) sim::violation("signal-history", "a signal is still reported after stop");
  for (int s : SIGS)
    if (sim::handler_ptr(0, s) != base[s])
      sim::violation("handler-left-installed", "after stop the disposition of signal %d is not the one before start", s);
}
