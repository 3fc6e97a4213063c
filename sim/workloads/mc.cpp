// Workload: the Monte Carlo engine (mc_generic and everything under it) on 1..4 simulated MPI ranks.
// Real code: mc_tools/*, utility/{signal_handler,callbacks,timer,timestamp,report_stream,buffered_function,exceptions}.
// The moves, measures, stop callbacks are instrumented user code; the oracle is the model in RankModel.
#include "sim.hpp"
#include <triqs/mc_tools/mc_generic.hpp>
#include <triqs/utility/callbacks.hpp>
#include <complex>
#include <csignal>
#include <iostream>
#include <set>

using namespace triqs::mc_tools;
namespace sh = triqs::signal_handler;
using dcomplex = std::complex<double>;
static const int SIGS[6] = {SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1, SIGUSR2};
static const char *GENS[5] = {"mt19937", "", "mt11213b", "ranlux3", "lagged_fibonacci607"};

#define EXPORT extern "C" __attribute__((visibility("default")))

// properties, as selected with cfg "prop"
enum { ANY = 0, M01 = 1, M02 = 2, M03 = 3, M04 = 4, M05 = 5, M06 = 6, M07 = 7 };
static bool on(int p) {
  int64_t w = sim::cfg("prop");
  return w == 0 || w == p;
}
#define FAIL(p, cls, ...)                                                                                                                            \
  do {                                                                                                                                               \
    if (on(p)) sim::violation(cls, __VA_ARGS__);                                                                                                     \
  } while (0)

// ================================================================= plan generation
EXPORT void wl_generate(sim::Rng &g, sim::Plan &p) {
  int64_t prop = p.cfg.count("prop") ? p.cfg["prop"] : 0;
  bool stat    = prop == M05 ? g.chance(0.08) : prop == 0 ? g.chance(0.02) : false; // a long run for the selection statistics
  int64_t ranks = stat ? 1 : prop == M03 || prop == M04 ? (g.chance(0.15) ? 1 : g.range(2, 4)) : prop == M07 ? 1 : g.chance(0.5) ? 1 : g.range(2, 4);
  p.cfg["ranks"]   = ranks;
  p.cfg["mpi_env"] = ranks == 1 ? (g.chance(0.6) ? 1 : 0) : 1;
  p.cfg["rethrow"] = g.chance(prop == M03 ? 0.75 : 0.85) ? 1 : 0;
  p.cfg["cplx"]    = g.chance(0.4);
  p.cfg["verb"]    = g.chance(0.5) ? 3 : g.range(0, 3);
  p.cfg["gen"]     = g.range(0, 4);
  p.cfg["rngseed"] = (int64_t)g.below(1 << 30);
  int nm           = (int)g.range(1, 4);
  p.cfg["nm"]      = nm;
  for (int i = 0; i < nm; ++i) p.cfg["w" + std::to_string(i)] = g.chance(0.1) && nm > 1 && i > 0 ? 0 : g.range(1, 20);
  p.cfg["nested"] = g.chance(0.35); // moves 1.. live in a move_set
  p.cfg["style"]  = g.range(0, 5);
  p.cfg["nmeas"]  = g.range(0, 3);
  p.cfg["aux"]    = g.range(0, 2);
  p.cfg["duty"]   = g.chance(0.6);
  p.cfg["ndraw"]  = g.range(0, 3);
  p.cfg["mtimer"] = g.chance(0.7);
  p.cfg["report"] = g.chance(0.3);
  p.cfg["skew"]   = g.chance(0.3);
  // duration of an attempt, log-uniform from 1 us to 2 s
  int64_t tatt = 1000;
  for (int i = (int)g.below(prop == M06 ? 6 : 5); i > 0; --i) tatt *= 10;
  if (tatt > 2000000000) tatt = 2000000000;
  if (prop == M06 && tatt < 1000000) tatt *= 1000;
  p.cfg["tatt"]     = tatt;
  p.cfg["userhand"] = g.chance(0.3);
  int nops = (int)g.range(1, 4);
  bool usedclock = false;
  int64_t total_attempts = 0;
  if (stat) {
    p.cfg["tatt"] = 0;
    p.cfg["ndraw"] = g.range(0, 1);
    p.cfg["style"] = g.range(0, 4);
    p.ops.push_back({-1, "run", {1, 0, 20000, 1, 0, 0, 0}});
    p.ops.push_back({-1, "collect", {}});
    p.permil = 0;
    return;
  }
  for (int i = 0; i < nops; ++i) {
    int kind    = (int)g.pick(std::vector<int64_t>{0, 1, 1, 1, 2, 2, 3, 4});
    int64_t len = g.chance(0.3) ? 1 : g.range(1, 8);
    auto ncyc   = [&] { return g.chance(0.08) ? 0 : g.chance(0.1) ? -1 : g.range(1, 14); };
    int64_t nw = ncyc(), na = ncyc();
    if (kind == 2 || kind == 4) nw = g.chance(0.1) ? 0 : g.range(1, 10);
    int64_t cb = g.chance(0.35) ? 0 : g.chance(prop == M06 ? 0.8 : 0.35) ? 1 : g.chance(0.85) ? 2 : 3;
    bool inf   = na < 0 || (kind != 1 && nw < 0);
    if (inf && (cb == 0 || cb == 3)) cb = g.chance(0.5) ? 1 : 2;
    int64_t par = cb == 2 ? g.range(1, 14) : 1;
    if (cb == 1) {
      // a limit the run has a chance to reach
      int64_t est = tatt * len * 10 / 1000000000;
      par         = inf ? std::max<int64_t>(1, tatt * len * g.range(1, 8) / 1000000000) : g.chance(0.6) ? g.range(1, 2 + std::min<int64_t>(est * 2, 3000)) : g.range(1, 4000);
      if (inf && (int64_t)par * 1000000000 / std::max<int64_t>(tatt * len, 1) > 60) cb = 2, par = g.range(1, 14);
      usedclock = true;
    }
    p.ops.push_back({-1, "run", {kind, nw, na, len, cb, par, g.range(0, 3)}});
    total_attempts += 40 * len;
    if (prop == M04 ? g.chance(0.9) : g.chance(0.4)) p.ops.push_back({-1, "collect", {}});
    if (prop == M07 ? g.chance(0.8) : g.chance(0.1)) p.ops.push_back({-1, "save", {}});
    if (prop == M07 ? g.chance(0.5) : g.chance(0.05)) p.ops.push_back({-1, "restore", {g.chance(0.3) ? (int64_t)g.range(3, 9) * 1000000000 : 0}});
    if (g.chance(0.15)) p.ops.push_back({-1, "wait", {g.range(1, 3000000000LL)}});
    if (g.chance(0.1)) p.ops.push_back({-1, "rmm", {}});
    if (g.chance(0.1)) p.ops.push_back({-1, "addm", {}});
  }
  if (prop == M07 && g.chance(0.15)) p.ops.insert(p.ops.begin(), {-1, "save", {}});
  // faults
  int nf = prop == M01 || prop == M05 ? (g.chance(0.5) ? 0 : 1) : (int)g.range(0, 3);
  for (int i = 0; i < nf; ++i) {
    int r       = (int)g.below(ranks);
    double what = g.uniform();
    double psig = prop == M02 ? 0.6 : prop == M03 ? 0.2 : prop == M06 ? 0.1 : prop == M07 ? 0.15 : 0.3;
    double pthr = prop == M03 ? 0.65 : prop == M02 ? 0.1 : prop == M06 || prop == M07 ? 0.05 : 0.25;
    if (what < psig)
      p.faults.push_back({"signal", {r, g.range(0, g.chance(0.5) ? 60 : 600), SIGS[g.below(6)]}});
    else if (what < psig + pthr)
      p.faults.push_back({"throw", {r, g.range(0, 5), g.range(1, g.chance(0.5) ? 8 : 60)}});
    else if (prop == M07)
      p.faults.push_back({"io", {r, g.range(0, 60), g.chance(0.4) ? 0 : 1}});
    else if (g.chance(0.5))
      p.faults.push_back({"jump", {r, g.range(0, std::max<int64_t>(10, p.cfg["tatt"]) * 60), g.chance(0.5) ? g.range(1, 20000) * 1000000000LL : -g.range(1, 20000) * 1000000000LL}});
    else
      p.faults.push_back({"stall", {r, g.range(0, std::max<int64_t>(10, p.cfg["tatt"]) * 60), g.range(1, 50) * std::max<int64_t>(1000, p.cfg["tatt"])}});
  }
}

// ================================================================= model
struct Boom : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct MeasTime {
  int64_t inner = 0;
};
struct RankModel {
  // the run in progress
  bool in_run = false;
  int op      = -1;
  int64_t len = 1, nw = 0, na = 0; // cycles of the warmup and accumulation phases
  bool two_phase = false, measuring_only = false;
  int64_t cyc[2] = {0, 0}; // complete cycles of each phase
  int phase      = 0;      // 0 warmup, 1 accumulate
  int64_t cyc_att = 0;
  bool pending    = false; // attempted, not yet accepted or rejected
  int pending_move = -1;
  dcomplex pending_ratio{};
  double pending_u = 0;
  dcomplex pending_sign{1};
  int duty = 0, aux = 0;
  std::map<std::string, int> meas; // in this cycle
  bool cb_true = false, threw = false;
  int sig_seen = 0; // signals received in this run
  bool sig_old = false; // received before this run, and after the last one: they may stop this run
  int log_pos  = 0;
  // totals
  dcomplex sign{1};
  int64_t config = 0, cycles = 0, nmeasures = 0;
  std::vector<int64_t> prop, acc;
  std::set<std::string> measures;
  std::map<std::string, MeasTime> mt;
  std::map<std::string, std::pair<int64_t, dcomplex>> msum; // what each measure has accumulated
  int64_t calls[6] = {};
  // timers
  int64_t t_w0 = 0, t_w1 = 0, t_a0 = 0, t_a1 = 0; // bounds (simulated, monotonic) of the last warmup/accumulation, inner..outer
  std::string out;
  
  int64_t ph_begin[2] = {}, ph_end[2] = {};
  void to_accumulation() {
    phase   = 1;
    cb_true = false;
    for (auto &x : prop) x = 0;
    for (auto &x : acc) x = 0;
  }
};
struct OpInfo {
  int threw = 0, cb_in_warmup = 0, sig_in_warmup = 0;
  std::vector<int> status; // per rank, -1 not yet, 9 exception
  struct NoAcc {
    int rank, st;
    int64_t cyc, nw;
  };
  std::vector<NoAcc> noacc; // ranks which returned without accumulating
  std::map<std::string, std::pair<int64_t, dcomplex>> tot;
};
struct Saved {
  bool valid = false;
  std::shared_ptr<h5::node> form;
  RankModel model;
  std::map<int, int64_t> mvstate;
};
struct World {
  std::vector<RankModel> r;
  std::vector<OpInfo> ops;
  std::vector<Saved> saved, tmp;
  std::vector<int> pc;
  std::vector<std::map<int, int64_t>> mvstate; // move states, by move index
  int64_t boom = 0;
};
static World &W() { return *(World *)sim::world(); }
static RankModel &me() { return W().r[sim::rank()]; }

EXPORT void wl_setup() {
  auto w = new World;
  int n  = (int)sim::cfg("ranks", 1);
  w->r.resize(n);
  w->saved.resize(n);
  w->tmp.resize(n);
  w->pc.assign(n, 0);
  w->mvstate.resize(n);
  w->ops.resize(sim::plan().ops.size());
  for (auto &o : w->ops) o.status.assign(n, -1);
  sim::world() = w;
}

// std::cout of the simulated processes
struct Tee : std::streambuf {
  int overflow(int c) override {
    if (c != EOF && me().out.size() < 200000) me().out.push_back((char)c);
    return c;
  }
  std::streamsize xsputn(char const *s, std::streamsize n) override {
    if (me().out.size() < 200000) me().out.append(s, n);
    return n;
  }
};

// new signals that reached the TRIQS handler on this rank
static void pump_signals() {
  auto &m = me();
  for (; m.log_pos < sim::sig_log_size(); ++m.log_pos) {
    auto const &s = sim::sig_log(m.log_pos);
    if (s.rank != sim::rank()) continue;
    if (s.handler == nullptr || s.handler == (void *)1) continue;
    extern void user_handler(int);
    if (s.handler == (void *)user_handler) continue;
    m.sig_seen++;
    sim::probe("signal caught by the engine");
  }
}
void user_handler(int) {}

static void maybe_throw(int what) {
  auto &m   = me();
  int64_t k = ++m.calls[what];
  for (auto const &f : sim::plan().faults)
    if (f.kind == "throw" && f.arg(0) == sim::rank() && f.arg(1) == what && f.arg(2) == k && m.in_run) {
      static const char *nm[] = {"attempt", "accept", "reject", "measure", "after-cycle duty", "aux measure"};
      sim::fired((std::string("exception in ") + nm[what]).c_str());
      sim::trace("THROW in %s", nm[what]);
      m.threw = true;
      if (!W().ops[m.op].threw) W().ops[m.op].threw = 1;
      m.pending = false;
      throw Boom("injected");
    }
}

static void check_active(char const *what) {
  auto &m = me();
  pump_signals();
  if (!m.in_run) FAIL(M01, "outside-run", "rank %d: %s called outside of a run", sim::rank(), what);
}

// a phase is over when its last cycle is complete
static int64_t phase_n(RankModel &m, int ph) { return ph == 0 ? m.nw : m.na; }

// ---------------------------------------------------------------- moves
template <typename S> struct Move {
  int id;
  mc_generic<S> *mc;
  int64_t state = 0; // user state of the move
  int nd        = 0;
  Move(int id, mc_generic<S> *mc) : id(id), mc(mc) {}
  Move(Move &&)                 = default;
  Move &operator=(Move &&)      = default;
  Move(Move const &)            = delete;

  S attempt() {
    auto &m = me();
    check_active("attempt");
    int r = sim::rank();
    if (m.pending) FAIL(M01, "unresolved-attempt", "rank %d: move %d attempted while the previous proposal (move %d) was neither accepted nor rejected", r, id, m.pending_move);
    if (m.threw) FAIL(M03, "attempt-after-exception", "rank %d: a move is attempted after user code threw in this run", r);
    if (m.cyc_att >= m.len) FAIL(M01, "cycle-length", "rank %d: more than %lld attempts in a cycle without a poll of the stop callback", r, (long long)m.len);
    // the next phase of warmup_and_accumulate
    if (m.cyc_att == 0 && m.two_phase && m.phase == 0 && m.cyc[0] >= m.nw) {
      m.to_accumulation();
      m.sig_seen = 0;
      m.sig_old  = false;
    }
    if (m.cb_true) FAIL(M02, "attempt-after-stop", "rank %d: a move is attempted after the stop callback returned true", r);
    if (m.sig_seen) FAIL(M02, "attempt-after-signal", "rank %d: a move is attempted although a signal was received", r);
    int64_t n = phase_n(m, m.phase);
    if (n >= 0 && m.cyc[m.phase] >= n) FAIL(M01, "too-many-cycles", "rank %d: attempt in cycle %lld of %lld", r, (long long)m.cyc[m.phase] + 1, (long long)n);
    if (sim::cfg("w" + std::to_string(id)) == 0) FAIL(M05, "zero-weight-move", "rank %d: move %d has proposition probability 0 but is proposed", r, id);
    if (m.ph_begin[m.phase] == 0) m.ph_begin[m.phase] = sim::mono_ns();
    m.cyc_att++;
    m.prop[id]++;
    int64_t t = sim::cfg("tatt");
    if (t > 0) {
      sim::step(1 + (int64_t)(sim::mix(sim::plan().seed, m.calls[0] + 1000 * r) % (uint64_t)(2 * t)));
      sim::point("move");
    }
    maybe_throw(0);
    for (int64_t i = 0; i < sim::cfg("ndraw"); ++i) {
      double x = mc->get_rng()();
      if (!(x >= 0 && x < 1)) FAIL(M05, "rng-range", "random number %.17g out of [0,1[", x);
    }
    // the ratio
    uint64_t h = sim::mix(sim::mix(sim::plan().seed, r + 17), m.calls[0]);
    double mag;
    switch (sim::cfg("style")) {
      case 0: mag = 1; break;
      case 1: mag = (h % 3 == 0) ? 0.0 : (h % 3 == 1) ? 2.5 : 0.5; break;
      case 2: mag = std::ldexp(1.0 + (h % 100) / 100.0, (int)(h / 100 % 40) - 20); break;
      case 3: mag = (h % 1000) / 500.0; break;
      case 4: mag = (h % 17 == 0) ? 1e-300 : (h % 17 == 1) ? 1e300 : (h % 17 == 2) ? 1e-15 : 0.3 + (h % 100) / 100.0; break;
      default: mag = (h % 211 == 0) ? std::numeric_limits<double>::infinity() : (h % 211 == 1) ? std::numeric_limits<double>::quiet_NaN() : (h % 100) / 60.0; break;
    }
    S ratio;
    if constexpr (std::is_same_v<S, double>) {
      ratio = (h >> 40) % 3 == 0 ? -mag : mag;
    } else {
      double ph = (h >> 40) % 8 * 0.78539816339744828;
      ratio     = std::isfinite(mag) ? dcomplex{mag * std::cos(ph), mag * std::sin(ph)} : dcomplex{mag, 0};
    }
    m.pending      = true;
    m.pending_move = id;
    m.pending_ratio = ratio;
    m.pending_u     = mc->get_rng().preview();
    double a        = std::abs(ratio);
    bool inf_ok     = std::is_same_v<S, double> && std::isinf(a);
    if (!std::isfinite(a) && !inf_ok) { // the engine must refuse this one
      m.pending = false;
      m.threw   = true;
      W().ops[m.op].threw = 1;
      sim::probe("non finite ratio");
    }
    if (inf_ok) sim::probe("infinite ratio");
    if (inf_ok)
      m.pending_sign = std::signbit(std::real(ratio)) ? -1.0 : 1.0;
    else
      m.pending_sign = a > 1e-14 ? dcomplex(ratio) / a : dcomplex{1};
    if (!sim::cfg("tatt") == 0) sim::trace("attempt move %d ratio %.6g", id, a);
    return ratio;
  }
  S accept() {
    auto &m = me();
    check_active("accept");
    check_decision(true);
    m.acc[id]++;
    m.config++;
    state += id + 1;
    W().mvstate[sim::rank()][id] = state;
    m.pending = false;
    uint64_t h = sim::mix(sim::mix(sim::plan().seed, 31), m.acc[id] * 8 + id);
    maybe_throw(1);
    S s;
    if constexpr (std::is_same_v<S, double>)
      s = h % 4 == 0 ? -1 : 1;
    else
      s = h % 4 == 0 ? dcomplex{0, 1} : h % 4 == 1 ? dcomplex{-1, 0} : dcomplex{1, 0};
    m.sign *= m.pending_sign * dcomplex(s);
    return s;
  }
  void reject() {
    auto &m = me();
    check_active("reject");
    check_decision(false);
    m.config++;
    m.pending = false;
    maybe_throw(2);
  }
  void check_decision(bool accepted) {
    auto &m = me();
    if (!m.pending) FAIL(M01, "decision-without-attempt", "rank %d: move %d %s without a pending proposal", sim::rank(), id, accepted ? "accepted" : "rejected");
    if (m.pending_move != id)
      FAIL(M01, "wrong-move", "rank %d: move %d was proposed, move %d is %s", sim::rank(), m.pending_move, id, accepted ? "accepted" : "rejected");
    double a    = std::abs(m.pending_ratio);
    bool expect = m.pending_u < std::min(1.0, a);
    if (a == 0) sim::probe("zero ratio");
    if (expect != accepted)
      FAIL(M05, "metropolis-rule", "rank %d: move with |ratio| %.17g %s with random number %.17g", sim::rank(), a, accepted ? "accepted" : "rejected", m.pending_u);
  }
  friend void h5_write(h5::group g, std::string const &name, Move const &m) {
    auto gr = g.create_group(name);
    h5_write(gr, "state", m.state);
    h5_write(gr, "id", (long)m.id);
  }
  friend void h5_read(h5::group g, std::string const &name, Move &m) {
    auto gr = g.open_group(name);
    long id;
    h5_read(gr, "id", id);
    if (id != m.id) FAIL(M07, "checkpoint-move", "move %d reads the state of move %ld", m.id, id);
    h5_read(gr, "state", m.state);
  }
};

// ---------------------------------------------------------------- measures
template <typename S> struct Meas {
  std::string name;
  int64_t count = 0;
  S sum         = 0;
  explicit Meas(std::string n) : name(std::move(n)) {}
  Meas(Meas &&)      = default;
  Meas(Meas const &) = delete;
  void accumulate(S s) {
    auto &m = me();
    check_active("a measure");
    int r = sim::rank();
    if (m.phase == 0) FAIL(M01, "measure-in-warmup", "rank %d: measure %s is called in a warmup cycle", r, name.c_str());
    if (m.cyc_att != m.len || m.pending)
      FAIL(M01, "measure-in-partial-cycle", "rank %d: measure %s called after %lld of %lld attempts of the cycle", r, name.c_str(), (long long)m.cyc_att, (long long)m.len);
    if (!m.measures.count(name)) FAIL(M01, "removed-measure", "rank %d: measure %s was removed but is called", r, name.c_str());
    if (m.meas[name]++) FAIL(M01, "measured-twice", "rank %d: measure %s called twice in one cycle", r, name.c_str());
    if (m.aux != sim::cfg("aux")) FAIL(M01, "aux-missing", "rank %d: measure %s called after %d of %lld auxiliary measures", r, name.c_str(), m.aux, (long long)sim::cfg("aux"));
    if (std::abs(dcomplex(s) - m.sign) > 1e-9 * (1 + std::abs(m.sign)))
      FAIL(M05, "sign", "rank %d: measure gets the sign (%.12g,%.12g), the accepted moves give (%.12g,%.12g)", r, std::real(dcomplex(s)), std::imag(dcomplex(s)),
           m.sign.real(), m.sign.imag());
    int64_t t = sim::cfg("tatt") / 3;
    int64_t b = sim::mono_ns();
    if (t > 0) {
      sim::step(1 + (int64_t)(sim::mix(sim::plan().seed, count) % (uint64_t)t));
      sim::point("measure");
    }
    int64_t spent = sim::mono_ns() - b;
    maybe_throw(3);
    m.mt[name].inner += spent;
    count++;
    sum += s;
    m.msum[name].first++;
    m.msum[name].second += m.sign;
  }
  void collect_results(mpi::communicator const &c) {
    sim::trace("collect %s", name.c_str());
    auto &m    = me();
    auto &op   = W().ops[m.op];
    int64_t n  = mpi::all_reduce(count, c);
    S s        = mpi::all_reduce(sum, c);
    auto const &t = op.tot[name];
    if (n != t.first) FAIL(M04, "collected-count", "rank %d: measure %s collected over all ranks has %lld entries instead of %lld", sim::rank(), name.c_str(), (long long)n, (long long)t.first);
    if (std::abs(dcomplex(s) - t.second) > 1e-9 * (1 + std::abs(t.second)))
      FAIL(M04, "collected-sum", "rank %d: measure %s: collected sum of signs (%g,%g) instead of (%g,%g)", sim::rank(), name.c_str(), std::real(dcomplex(s)),
           std::imag(dcomplex(s)), t.second.real(), t.second.imag());
    if (m.meas[name]++) FAIL(M04, "collected-twice", "rank %d: collect_results called twice on measure %s", sim::rank(), name.c_str());
  }
  std::string report() const { return name + " report"; }
  friend void h5_write(h5::group g, std::string const &name, Meas const &m) {
    auto gr = g.create_group(name);
    h5_write(gr, "name", m.name);
    h5_write(gr, "count", m.count);
    h5_write(gr, "sum", m.sum);
  }
  friend void h5_read(h5::group g, std::string const &name, Meas &m) {
    auto gr = g.open_group(name);
    std::string n;
    h5_read(gr, "name", n);
    if (n != m.name) FAIL(M07, "checkpoint-measure", "measure %s reads the state of %s", m.name.c_str(), n.c_str());
    h5_read(gr, "count", m.count);
    h5_read(gr, "sum", m.sum);
  }
};

struct Aux {
  void operator()() {
    auto &m = me();
    check_active("an auxiliary measure");
    if (m.cyc_att != m.len || m.phase == 0) FAIL(M01, "measure-in-partial-cycle", "rank %d: auxiliary measure called at attempt %lld of %lld", sim::rank(), (long long)m.cyc_att, (long long)m.len);
    m.aux++;
    maybe_throw(5);
  }
};

// ---------------------------------------------------------------- one simulated process
template <typename S> struct Proc {
  std::unique_ptr<mc_generic<S>> mc;
  std::map<std::string, typename measure_set<S>::measure_itr_t> itr;
  mpi::communicator c;

  void make() {
    itr.clear();
    mc = std::make_unique<mc_generic<S>>(GENS[sim::cfg("gen")], (int)(sim::cfg("rngseed") + 7919 * sim::rank()), (int)sim::cfg("verb"), (bool)sim::cfg("rethrow"));
    int nm      = (int)sim::cfg("nm");
    auto w      = [](int i) { return (double)sim::cfg("w" + std::to_string(i)); };
    bool nested = sim::cfg("nested") && nm > 1;
    double wsum = 0;
    if (nested) {
      move_set<S> set(mc->get_rng());
      for (int i = 1; i < nm; ++i) {
        set.add(Move<S>(i, mc.get()), "move" + std::to_string(i), w(i));
        wsum += w(i);
      }
      mc->add_move(Move<S>(0, mc.get()), "move0", w(0));
      mc->add_move(std::move(set), "set", wsum);
    } else
      for (int i = 0; i < nm; ++i) mc->add_move(Move<S>(i, mc.get()), "move" + std::to_string(i), w(i));
    auto &m = me();
    m.prop.assign(nm, 0);
    m.acc.assign(nm, 0);
    m.measures.clear();
    m.msum.clear();
    m.mt.clear();
    for (int i = 0; i < sim::cfg("nmeas"); ++i) add_measure();
    for (int i = 0; i < sim::cfg("aux"); ++i) mc->add_measure_aux(std::make_shared<Aux>());
    if (sim::cfg("duty"))
      mc->set_after_cycle_duty([]() {
        auto &m = me();
        check_active("the after-cycle duty");
        if (m.cyc_att != m.len || m.pending) FAIL(M01, "duty-in-partial-cycle", "rank %d: after-cycle duty called after %lld of %lld attempts", sim::rank(), (long long)m.cyc_att, (long long)m.len);
        m.duty++;
        maybe_throw(4);
      });
    m.sign   = 1;
    m.config = m.cycles = m.nmeasures = 0;
    W().mvstate[sim::rank()].clear();
  }
  void add_measure() {
    auto &m = me();
    std::string n;
    for (int i = 0;; ++i) {
      n = "measure" + std::string(1, 'A' + i);
      if (!m.measures.count(n)) break;
    }
    if (m.measures.size() > 5) return;
    itr[n] = mc->add_measure(Meas<S>(n), n, (bool)sim::cfg("mtimer"), (bool)sim::cfg("report"));
    m.measures.insert(n);
    m.msum[n] = {0, 0};
    m.mt[n]   = {};
    bool dup  = false;
    try {
      mc->add_measure(Meas<S>(n), n);
    } catch (triqs::runtime_error const &) { dup = true; }
    if (!dup) FAIL(M01, "duplicate-measure", "a second measure named %s is accepted", n.c_str());
  }

  void op_run(sim::Op const &o) {
    auto &m  = me();
    int r    = sim::rank();
    int kind = (int)o.arg(0);
    auto &I  = W().ops[m.op];
    m.two_phase = kind == 2 || kind == 4;
    bool warm   = kind == 0 || kind == 3;
    m.nw        = kind == 1 ? 0 : o.arg(1);
    m.na        = warm ? 0 : o.arg(2);
    m.len       = o.arg(3, 1);
    m.phase     = (kind == 1 || (m.two_phase && m.nw == 0)) ? 1 : 0;
    m.cyc[0] = m.cyc[1] = 0;
    m.cyc_att           = 0;
    m.pending           = false;
    m.duty = m.aux = 0;
    m.meas.clear();
    m.cb_true = m.threw = false;
    m.ph_begin[0] = m.ph_begin[1] = m.ph_end[0] = m.ph_end[1] = 0;
    pump_signals();
    m.sig_old |= m.sig_seen > 0;
    m.sig_seen = 0;
    for (auto &x : m.prop) x = 0;
    for (auto &x : m.acc) x = 0;
    if (kind == 3 || kind == 4) {
      int64_t s = o.arg(6);
      if constexpr (std::is_same_v<S, double>)
        m.sign = s % 2 ? -1.0 : 1.0;
      else
        m.sign = s == 0 ? dcomplex{1} : s == 1 ? dcomplex{-1} : s == 2 ? dcomplex{0, 1} : dcomplex{0, -1};
    }
    S sign_init;
    if constexpr (std::is_same_v<S, double>)
      sign_init = m.sign.real();
    else
      sign_init = m.sign;

    // stop callback
    int64_t cb = o.arg(4), par = o.arg(5);
    std::function<bool()> inner;
    int64_t c0 = sim::mono_ns(), c1 = c0;
    if (cb == 1 || cb == 3) {
      sim::point("before clock_callback");
      inner = triqs::utility::clock_callback(cb == 1 ? (int)par : 0);
      c1    = sim::mono_ns();
    }
    int64_t polls = 0;
    auto stop     = [&]() -> bool {
      auto &m = me();
      check_active("the stop callback");
      if (m.cyc_att == 0 && m.two_phase && m.phase == 0 && m.cyc[0] >= m.nw && m.nw >= 0) m.to_accumulation(); // interrupted before its first attempt
      bool complete = m.cyc_att == m.len && !m.pending && !m.threw;
      if (m.cyc_att < m.len && !m.sig_seen && !m.sig_old && !m.threw)
        FAIL(M01, "cycle-length", "rank %d: the cycle ended after %lld of %lld attempts without a signal or an exception", r, (long long)m.cyc_att, (long long)m.len);
      if (complete) {
        if (m.duty != (sim::cfg("duty") ? 1 : 0)) FAIL(M01, "duty-calls", "rank %d: after-cycle duty called %d times in a cycle", r, m.duty);
        if (m.phase == 1) {
          if (m.aux != sim::cfg("aux")) FAIL(M01, "aux-missing", "rank %d: %d auxiliary measures called in a complete cycle", r, m.aux);
          for (auto const &n : m.measures)
            if (m.meas[n] != 1) FAIL(M01, "measure-missing", "rank %d: measure %s was not called in a complete accumulation cycle", r, n.c_str());
          m.nmeasures++;
        }
        m.cyc[m.phase]++;
        int64_t n = phase_n(m, m.phase);
        if (n > 0 && mc->get_percent() != m.cyc[m.phase] * 100 / n)
          FAIL(M01, "percent", "rank %d: %lld%% reported after %lld of %lld cycles", r, (long long)mc->get_percent(), (long long)m.cyc[m.phase], (long long)n);
      } else if (m.phase == 0 || !m.two_phase)
        sim::probe("partial cycle");
      m.cycles++;
      m.cyc_att = 0;
      m.pending = false;
      m.duty = m.aux = 0;
      m.meas.clear();
      polls++;
      bool res = false;
      if (cb == 1) {
        int64_t p0 = sim::mono_ns();
        res        = inner();
        int64_t p1 = sim::mono_ns(), lim = par * 1000000000LL;
        if (res && p1 - c0 <= lim)
          FAIL(M06, "limit-too-early", "rank %d: the time limit of %lld s is reported reached after %.9f s", r, (long long)par, (p1 - c0) * 1e-9);
        if (!res && p0 - c1 > lim)
          FAIL(M06, "limit-missed", "rank %d: the time limit of %lld s is not reported although %.9f s have passed", r, (long long)par, (p0 - c1) * 1e-9);
        if (res) sim::probe("time limit reached");
      } else if (cb == 3) {
        res = inner();
        if (res) FAIL(M06, "limit-too-early", "no time limit was set, but the callback says stop");
      } else if (cb == 2)
        res = polls >= par + (r % 2);
      if (res) m.cb_true = true;
      if (m.phase == 0 && (m.nw < 0 || m.cyc[0] < m.nw)) {
        if (res) I.cb_in_warmup = 1;
        if (m.sig_seen || m.sig_old) I.sig_in_warmup = 1;
      }
      sim::trace("poll %lld -> %d", (long long)polls, (int)res);
      m.ph_end[m.phase] = sim::mono_ns();
      return res;
    };

    m.in_run   = true;
    int64_t t0 = sim::mono_ns();
    int st     = -1;
    bool exc   = false;
    std::string what;
    try {
      switch (kind) {
        case 0: st = mc->warmup(o.arg(1), m.len, stop, c); break;
        case 1: st = mc->accumulate(o.arg(2), m.len, stop, c); break;
        case 2: st = mc->warmup_and_accumulate(o.arg(1), o.arg(2), m.len, stop, c); break;
        case 3: st = mc->warmup(o.arg(1), m.len, stop, sign_init, c); break;
        default: st = mc->warmup_and_accumulate(o.arg(1), o.arg(2), m.len, stop, sign_init, c); break;
      }
    } catch (std::exception const &e) {
      exc  = true;
      what = e.what();
    }
    pump_signals();
    m.in_run   = false;
    int64_t t1 = sim::mono_ns();
    I.status[r] = exc ? 9 : st;
    sim::trace("run kind %d -> %s %d", kind, exc ? "exception" : "status", st);
    sim::state(sim::mix(sim::mix(kind * 100 + st, m.cyc[0] * 64 + m.cyc[1]), (exc ? 2 : 0) + (m.cb_true ? 4 : 0) + (m.sig_seen ? 8 : 0)));

    if (exc) {
      sim::probe("run threw");
      if (!I.threw) FAIL(M03, "spurious-exception", "rank %d: run throws although no user code threw on any rank: %s", r, what.substr(0, 200).c_str());
      if (!sim::cfg("rethrow")) FAIL(M03, "exception-instead-of-abort", "rank %d: the exception is rethrown although rethrow_exception is false", r);
      m.sig_seen  = 0;
      m.sig_old   = false;
      m.config    = mc->get_config_id();
      m.cycles    = mc->get_current_cycle_number();
      m.nmeasures = -1;
      return;
    }
    if (m.threw || I.threw)
      FAIL(M03, "exception-swallowed", "rank %d: run returns status %d although user code threw on %s", r, st, m.threw ? "this rank" : "another rank");

    // the status
    int ph      = m.phase;
    int64_t n   = phase_n(m, ph);
    bool complete = n >= 0 && m.cyc[ph] >= n;
    if (m.two_phase && ph == 0) {
      // this rank made no accumulation cycle
      bool wdone = m.nw >= 0 && m.cyc[0] >= m.nw;
      if (wdone && m.na == 0 && st == 0)
        m.to_accumulation(); // nothing to accumulate
      else {
        if (st == 0) FAIL(M02, "status", "rank %d: status 0, but %s", r, wdone ? "nothing was accumulated" : "the warmup is not complete");
        if (m.sig_seen || m.sig_old) I.sig_in_warmup = 1;
        I.noacc.push_back({r, st, m.cyc[0], m.nw}); // judged when all ranks are done
        if (wdone) sim::probe("stopped since another rank stopped in the warmup");
      }
    } else {
      if (!complete && !m.cb_true && !m.sig_seen && !m.sig_old)
        FAIL(M02, "stopped-without-reason", "rank %d: the run ends after %lld of %lld cycles without stop callback or signal", r, (long long)m.cyc[ph], (long long)n);
      if (complete && st != 0) {
        // the whole computation is done
        FAIL(M02, "status", "rank %d: all %lld cycles are done, but the status is %d", r, (long long)n, st);
      }
      if (!complete && st == 0)
        FAIL(M02, "status", "rank %d: status 0 (run until the end), but only %lld of %lld cycles are complete%s", r, (long long)m.cyc[ph], (long long)n,
             m.sig_seen ? ": a signal interrupted the run" : "");
      if (st == 1 && !m.cb_true) FAIL(M02, "status", "rank %d: status 1 (stop callback), but it never returned true", r);
      if (st == 2 && !m.sig_seen && !m.sig_old) FAIL(M02, "status", "rank %d: status 2 (signal), but none was received", r);
    }
    if (st < 0 || st > 2) FAIL(M02, "status", "rank %d: status %d", r, st);
    if (st == 1) sim::probe("stopped by the callback");
    if (st == 2) sim::probe("stopped by a signal");
    if (m.sig_seen && m.cb_true) sim::probe("signal and callback together");
    if (!m.sig_seen && !m.sig_old && !m.threw) {
      if (mc->get_current_cycle_number() != m.cycles)
        FAIL(M01, "cycle-number", "rank %d: cycle number %lld after %lld cycles", r, (long long)mc->get_current_cycle_number(), (long long)m.cycles);
    } else
      m.cycles = mc->get_current_cycle_number();
    if (mc->get_config_id() != m.config)
      FAIL(M01, "config-number", "rank %d: configuration number %lld after %lld accepted or rejected moves", r, (long long)mc->get_config_id(), (long long)m.config);
    if (!warm && (m.phase == 1)) m.nmeasures = m.cyc[1];
    if (warm || (m.two_phase && m.phase == 0)) m.nmeasures = 0;
    if ((kind == 1 && o.arg(2) == 0) || (warm && o.arg(1) == 0) || (m.two_phase && m.nw == 0 && m.na == 0)) m.nmeasures = -1; // an empty run leaves it alone
    // durations
    double dw = mc->get_warmup_time(), da = mc->get_accumulation_time();
    auto bound = [&](char const *w, double d, double lo, double hi) {
      if (!(d >= lo - 1e-6 - 1e-9 * lo && d <= hi + 1e-6 + 1e-9 * hi))
        FAIL(M06, "duration", "rank %d: %s of %.9f s reported, it lasted between %.9f and %.9f s", r, w, d, lo, hi);
    };
    double hi = (t1 - t0) * 1e-9;
    auto lo = [&](int ph) { return m.ph_begin[ph] && m.ph_end[ph] > m.ph_begin[ph] ? (m.ph_end[ph] - m.ph_begin[ph]) * 1e-9 : 0; };
    if (kind != 1) bound("warmup time", dw, lo(0), hi - lo(1));
    if (kind == 1 || (m.two_phase && m.phase == 1)) bound("accumulation time", da, lo(1), hi - lo(0));
    if (std::abs(mc->get_total_time() - (mc->get_warmup_time() + mc->get_accumulation_time())) > 1e-6) FAIL(M06, "duration", "the total time is not the sum of its parts");
    auto hms = mc->get_accumulation_time_HHMMSS();
    long H, M, Sx;
    if (sscanf(hms.c_str(), "%ld:%ld:%ld", &H, &M, &Sx) != 3 || std::abs(H * 3600.0 + M * 60 + Sx - std::floor(da)) > 1.0 || M > 59 || Sx > 59 || M < 0 || Sx < 0)
      FAIL(M06, "duration", "accumulation time %s for %.3f s", hms.c_str(), da);
    if (!(warm ? o.arg(1) == 0 : kind == 1 ? o.arg(2) == 0 : o.arg(1) == 0 && o.arg(2) == 0)) {
      m.sig_seen = 0;
      m.sig_old  = false;
    }
  }

  static std::vector<std::string> lines(std::string const &s) {
    std::vector<std::string> r;
    size_t b = 0;
    while (b < s.size()) {
      auto e = s.find('\n', b);
      if (e == std::string::npos) e = s.size();
      r.push_back(s.substr(b, e - b));
      b = e + 1;
    }
    return r;
  }

  void op_collect() {
    auto &m = me();
    auto &I = W().ops[m.op];
    int r   = sim::rank();
    // totals over the ranks, from the models (all are between two operations once everybody is here)
    c.barrier();
    if (I.tot.empty())
      for (auto const &n : m.measures) {
        auto &t = I.tot[n];
        for (auto &x : W().r) {
          t.first += x.msum[n].first;
          t.second += x.msum[n].second;
        }
      }
    int64_t nmt = 0;
    bool known  = true;
    std::vector<int64_t> P(m.prop.size()), A(m.prop.size());
    for (auto &x : W().r) {
      nmt += x.nmeasures;
      if (x.nmeasures < 0) known = false;
      for (size_t i = 0; i < P.size(); ++i) {
        P[i] += x.prop[i];
        A[i] += x.acc[i];
      }
    }
    c.barrier();
    m.meas.clear();
    m.out.clear();
    int64_t own = m.nmeasures;
    mc->collect_results(c);
    for (auto const &n : m.measures)
      if (m.meas[n] != 1) FAIL(M04, "collect-missing", "rank %d: collect_results was not called on measure %s", r, n.c_str());
    m.meas.clear();
    auto rates  = mc->get_acceptance_rates();
    bool nested = sim::cfg("nested") && P.size() > 1;
    size_t want = P.size() + (nested ? 1 : 0);
    if (rates.size() != want) FAIL(M04, "rates", "rank %d: %zu acceptance rates for %zu moves", r, rates.size(), want);
    auto chk = [&](std::string const &n, int64_t a, int64_t p) {
      if (!rates.count(n)) {
        FAIL(M04, "rates", "rank %d: no acceptance rate for %s", r, n.c_str());
        return;
      }
      double x = rates[n], y = double(a) / double(p);
      if (p == 0) {
        if (std::isfinite(x) && x > 0) FAIL(M04, "rates", "rank %d: acceptance rate %g of %s, which was never proposed", r, x, n.c_str());
      } else if (!(std::abs(x - y) < 1e-12))
        FAIL(M04, "rates", "rank %d: acceptance rate of %s is %.12g, the ranks accepted %lld of %lld proposals", r, n.c_str(), x, (long long)a, (long long)p);
    };
    int64_t sa = 0, sp = 0;
    for (size_t i = 0; i < P.size(); ++i) {
      chk("move" + std::to_string(i), A[i], P[i]);
      if (i) {
        sa += A[i];
        sp += P[i];
      }
    }
    if (nested) chk("set", sa, sp);
    // what is printed
    if (sim::cfg("verb") >= 3) {
      long long v;
      for (auto const &l : lines(m.out)) {
        auto p = l.find("Number of measures: ");
        if (p != std::string::npos && own >= 0 && sscanf(l.c_str() + p, "Number of measures: %lld", &v) == 1 && v != own)
          FAIL(M04, "measure-count", "rank %d: reports %lld measures, it made %lld", r, v, (long long)own);
        if (sscanf(l.c_str(), "Total number of measures: %lld", &v) == 1 && known && v != nmt)
          FAIL(M04, "measure-count", "rank %d: reports %lld measures in total, the ranks made %lld", r, v, (long long)nmt);
        if (sim::cfg("mtimer"))
          for (auto const &n : m.measures)
            if (l.compare(0, n.size(), n) == 0) {
              auto bar = l.find('|');
              double d = bar == std::string::npos ? 0 : atof(l.c_str() + bar + 1);
              double lo = m.mt[n].inner * 1e-9;
              if (d < lo * 0.9999 - 1e-6 || d > lo * 1.0001 + 1e-2 + 60e-6 * 200 + collect_time)
                FAIL(M06, "measure-time", "rank %d: measure %s reported to have taken %g s, it took %g s", r, n.c_str(), d, lo);
            }
      }
    }
    sim::trace("collected");
  }
  double collect_time = 1e6; // collecting waits for the other ranks

  void op_save() {
    auto &m = me();
    auto &s = W().tmp[sim::rank()];
    s.valid = false;
    s.model = m;
    std::string f = "ckpt" + std::to_string(sim::rank());
    try {
      {
        h5::file file(f + ".tmp", 'w');
        h5_write(h5::group{file}, "mc", *mc);
      }
      s.form    = h5::clone(h5::store().files[f + ".tmp"]->kids["mc"]);
      s.mvstate = W().mvstate[sim::rank()];
      s.valid   = true;
      h5::rename(f + ".tmp", f);
      W().saved[sim::rank()] = s;
      sim::trace("saved");
      sim::probe("checkpoint written");
    } catch (h5::io_error const &) { sim::probe("checkpoint failed with an I/O error"); }
  }

  void op_restore(int64_t big) {
    auto &m = me();
    auto &s = W().saved[sim::rank()];
    if (!s.valid) return;
    std::string f = "ckpt" + std::to_string(sim::rank());
    if (big) { // the checkpoint of a run that has been going for long
      auto &n = h5::store().files[f]->kids["mc"]->kids["number_cycle_done"];
      if (n) {
        n->data.i         = {big};
        s.model.cycles    = big;
        s.form            = h5::clone(h5::store().files[f]->kids["mc"]);
      }
    }
    auto keep = m.calls[0];
    auto lp   = m.log_pos;
    make();
    // the same measures as were registered when saving
    for (auto const &n : s.model.measures)
      if (!m.measures.count(n)) {
        itr[n] = mc->add_measure(Meas<S>(n), n, (bool)sim::cfg("mtimer"), (bool)sim::cfg("report"));
        m.measures.insert(n);
      }
    for (auto it = itr.begin(); it != itr.end();)
      if (!s.model.measures.count(it->first)) {
        mc->rm_measure(it->second);
        m.measures.erase(it->first);
        it = itr.erase(it);
      } else
        ++it;
    try {
      h5::file file(f, 'r');
      h5_read(h5::group{file}, "mc", *mc);
    } catch (h5::io_error const &) {
      sim::probe("restore failed with an I/O error");
      make();
      return;
    } catch (std::exception const &e) { FAIL(M07, "checkpoint-unreadable", "reading back a complete checkpoint throws: %s", e.what()); }
    auto form = h5::snapshot(*mc);
    std::string why;
    if (!h5::same(*form, *s.form, &why)) FAIL(M07, "checkpoint-differs", "after restart, the state read from the checkpoint differs in '%s'", why.c_str());
    if (mc->get_current_cycle_number() != s.model.cycles)
      FAIL(M07, "checkpoint-cycles", "cycle number %lld after restart, the checkpoint was written at %lld", (long long)mc->get_current_cycle_number(), (long long)s.model.cycles);
    m.sign      = s.model.sign;
    m.cycles    = s.model.cycles;
    m.nmeasures = s.model.nmeasures;
    m.msum      = s.model.msum;
    for (auto &n : m.measures) m.mt[n] = {};
    W().mvstate[sim::rank()] = s.mvstate;
    // the user state
    for (auto const &[id, st] : s.mvstate) {
      std::string key = "move" + std::to_string(id);
      auto mv         = form->kids.count("moves") ? form->kids["moves"] : nullptr;
      auto p          = mv && mv->kids.count(key) ? mv->kids[key] : mv && mv->kids.count("set") && mv->kids["set"]->kids.count(key) ? mv->kids["set"]->kids[key] : nullptr;
      if (!p || p->kids["state"]->data.i.at(0) != st) FAIL(M07, "checkpoint-move", "the state of %s is not in the checkpoint", key.c_str());
    }
    auto ms = form->kids.count("measures") ? form->kids["measures"] : nullptr;
    for (auto const &n : m.measures) {
      auto p = ms && ms->kids.count(n) ? ms->kids[n] : nullptr;
      if (!p || p->kids["count"]->data.i.at(0) != m.msum[n].first) FAIL(M07, "checkpoint-measure", "the state of %s is not in the checkpoint", n.c_str());
    }
    auto nd = form->kids.count("number_measure_done") ? form->kids["number_measure_done"] : nullptr;
    if (m.nmeasures >= 0 && (!nd || nd->data.i.at(0) != m.nmeasures))
      FAIL(M07, "checkpoint-measures-done", "the checkpoint holds %lld measurements done, the run made %lld", nd ? (long long)nd->data.i.at(0) : -1LL, (long long)m.nmeasures);
    m.calls[0] = keep;
    m.log_pos  = lp;
    sim::probe("restored from a checkpoint");
    sim::trace("restored");
  }

  void go() {
    auto &P = sim::plan();
    int r   = sim::rank();
    auto &m = me();
    if (sim::cfg("userhand"))
      for (int s : SIGS) signal(s, user_handler);
    else
      for (int s : SIGS) signal(s, SIG_IGN);
    make();
    if (sim::incarnation() > 0) {
      sim::probe("restart after a crash");
      m.in_run = false;
      m.calls[0] += 100000;
      W().saved[r].valid ? op_restore(0) : void();
    }
    for (int &pc = W().pc[r]; pc < (int)P.ops.size();) {
      auto const &o = P.ops[pc];
      m.op          = pc;
      pc++;
      if (o.name == "run") op_run(o);
      else if (o.name == "collect") {
        // only meaningful when the ranks are in step
        bool ok = true;
        for (int k = pc - 2; k >= 0; --k)
          if (P.ops[k].name == "run") {
            ok = !W().ops[k].threw;
            break;
          }
        if (ok) op_collect();
      } else if (o.name == "save") op_save();
      else if (o.name == "restore") op_restore(o.arg(0));
      else if (o.name == "wait") {
        double w0 = mc->get_warmup_time(), a0 = mc->get_accumulation_time();
        sim::step(o.arg(0));
        if (mc->get_warmup_time() != w0 || mc->get_accumulation_time() != a0)
          FAIL(M06, "timer-left-running", "rank %d: the reported durations change although nothing runs", r);
      } else if (o.name == "rmm" && !itr.empty()) {
        auto n = itr.begin()->first;
        mc->rm_measure(itr.begin()->second);
        itr.erase(itr.begin());
        m.measures.erase(n);
      } else if (o.name == "addm")
        add_measure();
    }
    // selection statistics over a long run
    int64_t tot = 0;
    double wt   = 0;
    for (size_t i = 0; i < m.prop.size(); ++i) {
      tot += m.prop[i];
      wt += sim::cfg("w" + std::to_string(i));
    }
    if (tot >= 5000) {
      sim::probe("selection statistics evaluated");
      for (size_t i = 0; i < m.prop.size(); ++i) {
        double p = sim::cfg("w" + std::to_string(i)) / wt, s = std::sqrt(tot * p * (1 - p));
        if (std::abs(m.prop[i] - tot * p) > 6 * s + 1e-9)
          FAIL(M05, "selection-frequency", "move %zu has proposition probability %.4f but was proposed %lld times out of %lld (%.1f sigma)", i, p, (long long)m.prop[i],
               (long long)tot, (m.prop[i] - tot * p) / (s > 0 ? s : 1));
      }
    }
    W().pc[r] = 1 << 20;
  }
};

EXPORT void wl_rank() {
  static Tee tee;
  static auto *old = std::cout.rdbuf(&tee);
  std::cout.rdbuf(&tee);
  std::cout.flags(std::ios::dec | std::ios::skipws);
  if (sim::cfg("cplx")) {
    Proc<dcomplex> p;
    p.go();
  } else {
    Proc<double> p;
    p.go();
  }
}

EXPORT void wl_finish() {
  bool aborted = sim::cfg("_aborted");
  bool threw   = false;
  for (auto &o : W().ops) threw |= o.threw;
  if (aborted) {
    if (!threw) FAIL(M03, "spurious-abort", "MPI_Abort although no user code threw");
    if (sim::cfg("rethrow") ) FAIL(M03, "abort-instead-of-exception", "MPI_Abort although rethrow_exception was requested");
    sim::probe("aborted");
    return;
  }
  for (size_t k = 0; k < W().ops.size(); ++k) {
    auto &o = W().ops[k];
    for (auto const &x : o.noacc) {
      if (o.threw) break;
      if (!o.cb_in_warmup && !o.sig_in_warmup)
        FAIL(M02, "stopped-without-reason", "rank %d: no accumulation after %lld of %lld warmup cycles, and no rank was stopped", x.rank, (long long)x.cyc, (long long)x.nw);
      if (x.st == 1 && !o.cb_in_warmup) FAIL(M02, "status", "rank %d: status 1 (stop callback), but it never returned true", x.rank);
      if (x.st == 2 && !o.sig_in_warmup) FAIL(M02, "status", "rank %d: status 2 (signal), but none was received in the warmup", x.rank);
    }
    if (sim::plan().ops[k].name != "run" || !o.threw) continue;
    if (!sim::cfg("rethrow")) FAIL(M03, "no-abort", "user code threw, rethrow_exception is false, but MPI_Abort was not called");
    for (size_t r = 0; r < o.status.size(); ++r)
      if (o.status[r] != 9 && sim::incarnation() == 0) FAIL(M03, "exception-swallowed", "user code threw in run %zu, but run returned %d on rank %zu", k, o.status[r], r);
  }
}
