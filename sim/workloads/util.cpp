// Workload: crash loggers and scope guards in programs that end their scopes early, under I/O errors, crashes and failing
// allocations (U01); points of the fine grid of imaginary times with scripted and real random numbers, saved and restored (U02).
// Real code: triqs/utility/{crash_logger,scope_guard,time_pt,typeid_name}, triqs/mc_tools/random_generator. Oracle: plain lists of
// registered objects; integers of 128 bits.
#include "sim.hpp"
#include <h5/h5.hpp>
#include <nda/h5.hpp>
#include <nda/mpi.hpp>
using nda::make_regular;
#include <triqs/utility/crash_logger.hpp>
#include <triqs/utility/scope_guard.hpp>
#include <triqs/utility/time_pt.hpp>
#include <triqs/mc_tools/random_generator.hpp>
#include <triqs/stat/histograms.hpp>
#include <cmath>
#include <optional>

#define EXPORT extern "C" __attribute__((visibility("default")))
enum { U01 = 1, U02 = 2 };
static bool on(int p) {
  int64_t w = sim::cfg("prop");
  return w == 0 || w == p;
}
#define FAIL(p, cls, ...)                                                                                                                            \
  do {                                                                                                                                               \
    if (on(p)) sim::violation(cls, __VA_ARGS__);                                                                                                     \
  } while (0)
using namespace triqs::utility;
using ld  = long double;
using u64 = uint64_t;
using u128 = unsigned __int128;
static constexpr u64 NM = ~0ULL;

static const int NLOG = 3, NOBJ = 8, NGUARD = 3, NPT = 4;

EXPORT void wl_generate(sim::Rng &g, sim::Plan &p) {
  int64_t prop   = p.cfg.count("prop") ? p.cfg["prop"] : 0;
  p.cfg["ranks"] = 1;
  bool u1        = prop == U01 || (prop == 0 && g.chance(0.5));
  p.cfg["logs"]  = u1;
  bool alloc     = g.chance(0.3);
  int n          = (int)g.range(3, u1 ? 24 : 16);
  auto R         = [&] { return (int64_t)g.below(1 << 20); };
  auto slot      = [&] { return g.chance(0.6) ? (int64_t)0 : g.range(1, 2); };
  for (int i = 0; i < n; ++i) {
    double u = g.uniform();
    if (u1) {
      if (u < 0.14) p.ops.push_back({0, "log", {slot(), g.range(0, 2)}});
      else if (u < 0.44) p.ops.push_back({0, "reg", {slot(), g.range(0, NOBJ - 1), alloc && g.chance(0.15) ? g.range(1, 6) : 0}});
      else if (u < 0.56) p.ops.push_back({0, "set", {g.range(0, NOBJ - 1), R()}});
      else if (u < 0.62) p.ops.push_back({0, "dismiss", {slot()}});
      else if (u < 0.68) p.ops.push_back({0, "lmove", {slot(), slot()}});
      else if (u < 0.73) p.ops.push_back({0, "lassign", {slot(), slot()}});
      else if (u < 0.85) p.ops.push_back({0, "end", {slot(), g.range(0, 3), alloc && g.chance(0.3) ? g.range(1, 40) : 0}});
      else if (u < 0.88) p.ops.push_back({0, "guard", {g.range(0, NGUARD - 1), g.range(0, 1)}});
      else if (u < 0.91) p.ops.push_back({0, "gend", {g.range(0, NGUARD - 1)}});
      else if (u < 0.93) p.ops.push_back({0, "gdismiss", {g.range(0, NGUARD - 1)}});
      else if (u < 0.95) p.ops.push_back({0, g.chance(0.5) ? "gmove" : "gassign", {g.range(0, NGUARD - 1), g.range(0, NGUARD - 1)}});
      else p.ops.push_back({0, "scope", {g.range(0, 7), g.range(0, 2)}});
    } else {
      auto pt = [&] { return g.range(0, NPT - 1); };
      if (u < 0.3) p.ops.push_back({0, "pt", {pt(), g.range(0, 9), R(), R()}});
      else if (u < 0.6) p.ops.push_back({0, g.chance(0.45) ? "add" : g.chance(0.6) ? "sub" : "neg", {pt(), pt(), pt()}});
      else if (u < 0.7) p.ops.push_back({0, g.chance(0.5) ? "div" : "mult", {pt(), pt(), R()}});
      else if (u < 0.75) p.ops.push_back({0, "fdiv", {pt(), pt()}});
      else if (u < 0.88) p.ops.push_back({0, "rnd", {pt(), g.range(0, 2), pt(), pt(), g.range(0, 4), R()}});
      else if (u < 0.92) p.ops.push_back({0, "mix", {pt(), R()}});
      else p.ops.push_back({0, g.chance(0.5) ? "psave" : "pload", {pt(), g.range(0, 2)}});
    }
  }
  int nf = alloc || g.chance(0.3) ? 0 : (int)g.range(1, 3);
  for (int i = 0; i < nf; ++i) p.faults.push_back({"io", {0, g.chance(0.7) ? g.range(0, 12) : g.range(0, 60), u1 ? (g.chance(0.75) ? 0 : 1) : g.range(0, 1)}});
}

// ================================================================= model
struct MReg {
  int obj;
  std::string name, file;
};
struct MLog {
  bool exists = false, active = true;
  std::string file;
  std::vector<MReg> regs;
};
struct MPt {
  u128 n      = 0;
  double beta = 0;
};
struct World {
  int pc = 0;
  MPt saved[3];
  int ok[3] = {}; // 0: nothing, 1: saved, 2: unknown (a crash or an error while it was written)
  std::vector<std::string> dying; // files a crash may have hit
};
static World &W() { return *static_cast<World *>(sim::world()); }

struct Boom {
  int x;
};
// ----------------------------------------------------------------- objects to be dumped
static int64_t version[NOBJ];
static double o_d;
static long o_l;
static std::string o_s;
static std::vector<double> o_v;
static std::complex<double> o_c;
static nda::array<double, 1> o_a;
static triqs::stat::histogram o_h;
static std::vector<std::string> o_vs;
static void set_obj(int o, int64_t v) {
  version[o] = v;
  u64 z      = sim::mix(v * 16 + o);
  int len    = (int)(z % 4);
  switch (o) {
    case 0: o_d = (double)(z % 100000) / 64; break;
    case 1: o_l = (long)(z % 1000000); break;
    case 2: o_s = "s" + std::to_string(z % 1000); break;
    case 3:
      o_v.assign(len, 0);
      for (auto &x : o_v) x = (double)((z = sim::mix(z)) % 1000);
      break;
    case 4: o_c = {(double)(z % 1000), (double)(z / 1000 % 1000)}; break;
    case 5: {
      nda::array<double, 1> a(len + 1);
      for (int i = 0; i <= len; ++i) a(i) = (double)((z = sim::mix(z)) % 1000);
      o_a.resize(len + 1);
      o_a = a;
      break;
    }
    case 6:
      o_h = triqs::stat::histogram(0, len + 2);
      for (int i = 0; i < 5; ++i) o_h << (double)((z = sim::mix(z)) % 7);
      break;
    case 7:
      o_vs.clear();
      for (int i = 0; i < len; ++i) o_vs.push_back("x" + std::to_string((z = sim::mix(z)) % 50));
      break;
  }
}
template <typename F> static auto with_obj(int o, F f) {
  switch (o) {
    case 0: return f(o_d);
    case 1: return f(o_l);
    case 2: return f(o_s);
    case 3: return f(o_v);
    case 4: return f(o_c);
    case 5: return f(o_a);
    case 6: return f(o_h);
    default: return f(o_vs);
  }
}
// what the object looks like in a file now
static std::shared_ptr<h5::node> image(int o) {
  auto f0           = h5::oracle_access;
  h5::oracle_access = true;
  h5::group g{std::make_shared<h5::node>(), "/"};
  with_obj(o, [&](auto const &x) {
    using h5::h5_write;
    h5_write(g, "x", x);
  });
  h5::oracle_access = f0;
  return g.n->kids.at("x");
}
// all files
static std::map<std::string, std::shared_ptr<h5::node>> files_now() {
  std::map<std::string, std::shared_ptr<h5::node>> m;
  for (auto &[k, v] : h5::store().files) m[k] = h5::clone(v);
  return m;
}
static void same_files(std::map<std::string, std::shared_ptr<h5::node>> const &a, std::map<std::string, std::shared_ptr<h5::node>> const &b, std::string const &but, char const *what) {
  for (auto *m : {&a, &b})
    for (auto &[k, v] : *m) {
      if (k == but) continue;
      std::string why;
      if (!a.count(k) || !b.count(k) || !h5::same(*a.at(k), *b.at(k), &why)) FAIL(U01, "file-touched", "%s: the file %s was changed (%s)", what, k.c_str(), why.c_str());
    }
}
static std::string fname(int64_t k) { return "dump" + std::to_string(k) + (k == 2 ? "_with_a_rather_long_name_which_is_allocated.h5" : ".h5"); }

// ================================================================= loggers
struct Logs {
  std::optional<crash_logger> log[NLOG];
  MLog m[NLOG];
  std::optional<scope_guard<std::function<void()>>> guard[NGUARD];
  bool gexists[NGUARD] = {}, gactive[NGUARD] = {};
  int gid[NGUARD] = {};
  std::vector<int> calls; // of guards, in order
  int next_id = 0;

  // ends a logger (how: 0 end of scope, 1 return, 2 exception, 3 exception through two scopes) and judges the file
  void end(int s, int how, int64_t nomem) {
    auto before = files_now();
    auto io0    = sim::io_count();
    MLog d      = m[s];
    m[s]        = {};
    bool dumps  = d.active && !d.regs.empty();
    if (dumps) W().dying.push_back(d.file);
    auto f = [&](auto &self, int lv) -> void {
      crash_logger l = std::move(*log[s]);
      log[s].reset(); // the moved-from object must not do anything
      if (files_now().size() != h5::store().files.size()) return;
      if (lv) {
        scope_guard<std::function<void()>> inner{[&] { calls.push_back(-1); }};
        if (nomem) sim::fail_new(nomem);
        throw Boom{lv};
      }
      if (nomem) sim::fail_new(nomem);
      if (how == 1) return;
      if (how == 2) throw Boom{2};
      (void)self;
    };
    bool boom = false;
    try {
      f(f, how == 3);
    } catch (Boom const &) { boom = true; }
    bool failed_alloc = nomem && sim::fail_new_left() <= 0;
    sim::fail_new(0);
    if (boom) sim::probe("left by an exception");
    if (failed_alloc) sim::fired("failed allocation");
    if (how == 3) {
      if (calls.empty() || calls.back() != -1) FAIL(U01, "guard-not-run", "a guard inside of a scope left by an exception did not run");
      calls.pop_back();
    }
    auto after = files_now();
    if (!dumps) {
      same_files(before, after, "", d.regs.empty() ? "logger without objects" : "dismissed logger");
      sim::probe(d.regs.empty() ? "empty logger" : "dismissed");
      return;
    }
    W().dying.pop_back();
    int errors = failed_alloc ? 1 : 0;
    for (auto const &f : sim::plan().faults)
      if (f.kind == "io" && f.arg(2) == 0 && f.arg(1) >= io0 && f.arg(1) < sim::io_count()) ++errors;
    same_files(before, after, d.file, "logger of another file");
    std::shared_ptr<h5::node> root = after.count(d.file) ? after[d.file] : std::make_shared<h5::node>();
    int bad = 0;
    std::string names;
    for (auto const &r : d.regs) {
      std::string why;
      auto it   = root->kids.find(r.name);
      bool fine = it != root->kids.end() && h5::same(*it->second, *image(r.obj), &why);
      if (!fine) {
        ++bad;
        names += " " + r.name + (it == root->kids.end() ? " (absent)" : " (differs at " + why + ")");
      }
    }
    if (bad > errors)
      FAIL(U01, "not-dumped", "%d of %zu registered objects are not in %s as they were when the scope was left (%d errors meanwhile):%s", bad, d.regs.size(), d.file.c_str(), errors, names.c_str());
    if (errors == 0) {
      std::map<std::string, int> want;
      for (auto const &r : d.regs) want[r.name] = 1;
      for (auto &[k, v] : root->kids)
        if (!want.count(k)) FAIL(U01, "stale-content", "%s holds %s after a complete dump which does not have it", d.file.c_str(), k.c_str());
    } else
      sim::probe("dump with errors");
    sim::probe("dumped");
    sim::state(sim::mix(d.regs.size() * 64 + how, errors * 4 + bad));
  }

  void check_guards(std::vector<int> want, char const *what) {
    if (calls != want) FAIL(U01, "guard-calls", "%s: %zu calls of guarded functions, expected %zu", what, calls.size(), want.size());
    calls.clear();
  }

  void step(sim::Op const &o) {
    auto const &k = o.name;
    int s         = (int)o.arg(0);
    if (k == "log") {
      if (m[s].exists) end(s, 0, 0);
      log[s].emplace(fname(o.arg(1)));
      m[s]        = {};
      m[s].exists = true;
      m[s].file   = fname(o.arg(1));
      return;
    }
    if (k == "end") {
      if (m[s].exists) end(s, (int)o.arg(1), o.arg(2));
      return;
    }
    auto before = files_now();
    if (k == "reg") {
      if (!m[s].exists || !m[s].active) return; // after a dismissal the fate of further objects is not specified
      int obj = (int)o.arg(1);
      MReg r{obj, "obj" + std::to_string(m[s].regs.size()) + "_" + std::to_string(obj), m[s].file};
      try {
        std::string name = r.name;
        if (o.arg(2)) sim::fail_new(o.arg(2));
        with_obj(obj, [&](auto const &x) { (*log[s])(x, name); });
        sim::fail_new(0);
        m[s].regs.push_back(r);
      } catch (std::bad_alloc const &) {
        sim::fail_new(0);
        sim::fired("failed allocation");
      }
    } else if (k == "set") {
      set_obj(s, o.arg(1));
    } else if (k == "dismiss") {
      if (!m[s].exists || m[s].regs.empty()) return;
      log[s]->dismiss();
      m[s].active = false;
    } else if (k == "lmove") {
      int t = (int)o.arg(1);
      if (!m[s].exists || s == t) return;
      if (m[t].exists) end(t, 0, 0);
      before = files_now();
      log[t].emplace(std::move(*log[s]));
      m[t] = m[s];
      m[s] = {};
      log[s].reset();
      sim::probe("moved");
    } else if (k == "lassign") {
      int t = (int)o.arg(1);
      if (!m[s].exists || !m[t].exists || s == t) return;
      *log[t] = std::move(*log[s]);
      std::swap(m[s], m[t]);
      sim::probe("assigned");
    } else if (k == "guard") {
      if (gexists[s]) gend(s);
      int id = next_id++;
      if (o.arg(1))
        guard[s].emplace(make_scope_guard(std::function<void()>{[this, id] { calls.push_back(id); }}));
      else
        guard[s].emplace(exec_at_scope_exit(std::function<void()>{[this, id] { calls.push_back(id); }}));
      check_guards({}, "making a guard");
      gexists[s] = gactive[s] = true;
      gid[s]                  = id;
    } else if (k == "gend") {
      if (gexists[s]) gend(s);
    } else if (k == "gdismiss") {
      if (!gexists[s]) return;
      guard[s]->dismiss();
      gactive[s] = false;
      if (guard[s]->active()) FAIL(U01, "guard-state", "a dismissed guard is active");
      check_guards({}, "dismissing a guard");
    } else if (k == "gmove") {
      int t = (int)o.arg(1);
      if (!gexists[s] || s == t) return;
      if (gexists[t]) gend(t);
      guard[t].emplace(std::move(*guard[s]));
      gexists[t] = true;
      gactive[t] = gactive[s];
      gid[t]     = gid[s];
      gactive[s] = false;
      if (guard[s]->active() || guard[t]->active() != gactive[t]) FAIL(U01, "guard-state", "after a move the guards are active: %d, %d", guard[s]->active(), guard[t]->active());
      gend(s);
    } else if (k == "gassign") {
      int t = (int)o.arg(1);
      if (!gexists[s] || !gexists[t] || s == t) return;
      *guard[t] = std::move(*guard[s]);
      std::swap(gactive[s], gactive[t]);
      std::swap(gid[s], gid[t]);
      check_guards({}, "assigning a guard");
      if (guard[s]->active() != gactive[s] || guard[t]->active() != gactive[t]) FAIL(U01, "guard-state", "after an assignment the guards are active: %d, %d", guard[s]->active(), guard[t]->active());
    } else if (k == "scope")
      scope((int)o.arg(0), (int)o.arg(1));
    same_files(before, files_now(), "", k.c_str());
  }
  void gend(int s) {
    guard[s].reset();
    check_guards(gactive[s] ? std::vector<int>{gid[s]} : std::vector<int>{}, "end of a guard");
    gexists[s] = false;
  }
  // guards as programs write them, left in three ways; bit b of mask: guard b is dismissed
  void scope(int mask, int how) {
    int x   = 0;
    auto f  = [&] {
      auto a = exec_at_scope_exit([&] { calls.push_back(0); x = x * 4 + 1; });
      SCOPE_EXIT { calls.push_back(1); x = x * 4 + 2; };
      auto b = make_scope_guard([&] { calls.push_back(2); x = x * 4 + 3; });
      if (mask & 1) a.dismiss();
      if (mask & 2) b.dismiss();
      if (!calls.empty()) return;
      if (how == 1) return;
      if (how == 2) throw Boom{1};
      if (mask & 4) {
        auto c = std::move(a);
        if (a.active() || c.active() == (bool)(mask & 1)) FAIL(U01, "guard-state", "moved guards are active: %d, %d", a.active(), c.active());
      }
      x = 0;
    };
    try {
      f();
    } catch (Boom const &) {}
    std::vector<int> want;
    bool moved = how == 0 && (mask & 4);
    if (moved && !(mask & 1)) want.push_back(0);
    if (!(mask & 2)) want.push_back(2);
    want.push_back(1);
    if (!moved && !(mask & 1)) want.push_back(0);
    check_guards(want, "scope with three guards");
  }
  void go() {
    calls.reserve(1000);
    for (int o = 0; o < NOBJ; ++o) set_obj(o, 1 + W().pc * 100);
    auto const &ops = sim::plan().ops;
    W().dying.clear(); // files of loggers which died in a crash are not judged: dumps to them are complete again only when written anew
    for (; W().pc < (int)ops.size();) {
      auto const &o = ops[W().pc++];
      sim::trace("op %s", o.name.c_str());
      step(o);
      sim::step(1000);
    }
    for (int s = 0; s < NLOG; ++s)
      if (m[s].exists) end(s, 0, 0);
    for (int s = 0; s < NGUARD; ++s)
      if (gexists[s]) gend(s);
  }
};

// ================================================================= points in time
struct Scripted { // a generator that says what it is told to, and remembers what it was asked
  u64 answer, asked = 0;
  int calls = 0;
  u64 operator()(u64 n) {
    ++calls;
    asked = n;
    return n ? answer % n : 0;
  }
};
struct Points {
  time_pt p[NPT];
  MPt m[NPT];
  std::optional<triqs::mc_tools::random_generator> rng;
  double beta = 1;
  static std::string show(u128 n) { return std::to_string((u64)n) + (n > NM ? "+2^64" : ""); }

  // the grid number of a point, from differences only the library can tell us: compare with points made from integers
  void check(int s, char const *what) {
    time_pt ref((u64)m[s].n, m[s].beta);
    if (!(p[s] == ref) || p[s] != ref || (p[s] <=> ref) != 0 || p[s] < ref || p[s] > ref) {
      u64 lo = 0, hi = NM; // find it
      while (lo < hi) {
        u64 mid = lo + (hi - lo) / 2;
        if (time_pt(mid, 1) < p[s])
          lo = mid + 1;
        else
          hi = mid;
      }
      FAIL(U02, "grid-point", "%s: the point has the number %s on the grid, it must be %s", what, show(lo).c_str(), show(m[s].n).c_str());
    }
    double v = double(p[s]), want = (double)((ld)m[s].beta * ((ld)(u64)m[s].n / (ld)NM));
    if (!(std::abs(v - want) <= 1e-15 * m[s].beta)) FAIL(U02, "value", "%s: the point %s of beta=%g has the value %.17g, it is %.17g", what, show(m[s].n).c_str(), m[s].beta, v, want);
    if ((u64)m[s].n == 0 && v != 0) FAIL(U02, "value", "%s: the lowest point has the value %g", what, v);
    if ((u64)m[s].n == NM && v != m[s].beta) FAIL(U02, "value", "%s: the uppermost point has the value %.17g, not beta=%.17g", what, v, m[s].beta);
    for (int t = 0; t < NPT; ++t) {
      bool lt = m[s].n < m[t].n, eq = m[s].n == m[t].n;
      if ((p[s] < p[t]) != lt || (p[s] == p[t]) != eq || (p[s] > p[t]) != (!lt && !eq) || (p[s] <= p[t]) != (lt || eq) || (p[s] >= p[t]) != !lt || (p[s] != p[t]) != !eq)
        FAIL(U02, "order", "%s: points %s and %s compare wrongly", what, show(m[s].n).c_str(), show(m[t].n).c_str());
      if (m[s].beta == m[t].beta && lt && double(p[s]) > double(p[t])) FAIL(U02, "order", "%s: %s is before %s but its value is larger", what, show(m[s].n).c_str(), show(m[t].n).c_str());
    }
    sim::state(sim::mix((u64)m[s].n >> 56, s));
  }
  u64 pick_n(int64_t a, int64_t b) {
    u64 z = sim::mix(a, b);
    switch (a % 8) {
      case 0: return b % 3;
      case 1: return NM - b % 3;
      case 2: return (1ULL << 63) + (u64)(b % 5) - 2;
      case 3: return 1ULL << (b % 64);
      case 4: return (1ULL << (b % 64)) - 1;
      default: return z;
    }
  }
  // results are within a beta which is that of the first operand
  void set(int s, u128 n, double b, time_pt x, char const *what) {
    p[s] = x;
    m[s] = {n, b};
    check(s, what);
  }
  void step(sim::Op const &o) {
    auto const &k = o.name;
    int s         = (int)o.arg(0);
    time_segment seg(beta);
    if (k == "pt") {
      int64_t how = o.arg(1);
      u64 n       = pick_n(o.arg(2), o.arg(3));
      if (how < 4) return set(s, n, beta, time_pt(n, beta), "construction");
      if (how == 4) return set(s, NM, beta, seg.get_upper_pt(), "get_upper_pt");
      if (how == 5) return set(s, 0, beta, seg.get_lower_pt(), "get_lower_pt");
      if (how == 6) return set(s, 1, beta, seg.get_epsilon(), "get_epsilon");
      if (how == 7) return set(s, 0, 0, time_pt(), "default construction");
      // from a double
      double x = o.arg(2) % 4 == 0 ? 0 : o.arg(2) % 4 == 1 ? beta : o.arg(2) % 4 == 2 ? beta * ((double)(o.arg(3) % 1000) / 1000) : std::nextafter(beta, 0.0);
      auto y   = seg.make_time_pt(x);
      if (x == 0) return set(s, 0, beta, y, "make_time_pt(0)");
      if (x == beta) return set(s, NM, beta, y, "make_time_pt(beta)");
      if (!(std::abs(double(y) - x) <= 1e-15 * beta)) FAIL(U02, "value", "make_time_pt(%.17g) of beta=%.17g has the value %.17g", x, beta, double(y));
      if (y > seg.get_upper_pt() || y < seg.get_lower_pt()) FAIL(U02, "value", "make_time_pt(%.17g) is not in the segment", x);
      return; // the exact number is not specified
    }
    if (k == "add" || k == "sub") {
      int a = (int)o.arg(1), b = (int)o.arg(2);
      double be = m[a].beta;
      auto [na, nb] = std::pair{m[a].n, m[b].n};
      if (k == "add") return set(s, (na + nb) % NM, be, p[a] + p[b], "a + b");
      return set(s, (na + NM - nb) % NM, be, p[a] - p[b], "a - b");
    }
    if (k == "neg") {
      int a = (int)o.arg(1);
      auto y = -p[a];
      if (m[a].n == 0 || m[a].n == NM) { // both ends are the same point of the circle
        if (!(y == seg.get_lower_pt()) && !(y == seg.get_upper_pt())) FAIL(U02, "grid-point", "-a of an end of the segment is not an end");
        return;
      }
      return set(s, NM - m[a].n, m[a].beta, y, "-a");
    }
    if (k == "div") {
      int a    = (int)o.arg(1);
      size_t d = 1 + (o.arg(2) % 3 ? o.arg(2) % 7 : sim::mix(o.arg(2)) >> 3);
      return set(s, m[a].n / d, m[a].beta, div_by_int(p[a], d), "div_by_int");
    }
    if (k == "mult") {
      int a    = (int)o.arg(1);
      size_t d = o.arg(2) % 9;
      if (m[a].n * d > NM) d = m[a].n ? (size_t)(NM / m[a].n) : 1; // beyond beta there is no promise
      return set(s, m[a].n * d, m[a].beta, mult_by_int(p[a], d), "mult_by_int");
    }
    if (k == "fdiv") {
      int b = (int)o.arg(1);
      if (m[b].n == 0) return;
      size_t q = floor_div(p[s], p[b]);
      if ((u128)q != m[s].n / m[b].n) FAIL(U02, "floor-div", "floor_div of %s and %s is %zu", show(m[s].n).c_str(), show(m[b].n).c_str(), q);
      return;
    }
    if (k == "mix") {
      double x = double(p[s]), y = (double)(o.arg(1) % 1000) / 16 + 1, e = 0;
      int t = (int)(o.arg(1) % NPT);
      e += std::abs((p[s] + y) - (x + y)) + std::abs((p[s] - y) - (x - y)) + std::abs((p[s] * y) - (x * y)) + std::abs((p[s] / y) - (x / y));
      e += std::abs((y + p[s]) - (y + x)) + std::abs((y - p[s]) - (y - x)) + std::abs((y * p[s]) - (y * x));
      if (x > 0) e += std::abs((y / p[s]) - (y / x));
      e += std::abs(p[s] * p[t] - x * double(p[t]));
      if (double(p[t]) > 0) e += std::abs(p[s] / p[t] - x / double(p[t]));
      if (!(e == 0)) FAIL(U02, "mixed-arithmetic", "arithmetic of a point %.17g with %.17g differs from that of its value", x, y);
      return;
    }
    if (k == "rnd") {
      int64_t how = o.arg(1);
      int a = (int)o.arg(2), b = (int)o.arg(3);
      u64 lo = 0, hi = NM;
      if (how == 1) hi = (u64)m[a].n;
      if (how == 2) lo = (u64)std::min(m[a].n, m[b].n), hi = (u64)std::max(m[a].n, m[b].n);
      if (m[a].n > m[b].n) std::swap(a, b);
      if (hi <= lo) return;
      u64 z = pick_n(o.arg(4), o.arg(5));
      if (o.arg(4) == 0) z = 0;
      if (o.arg(4) == 1) z = hi - lo - 1;
      int pa = how == 1 ? (int)o.arg(2) : a;
      auto draw = [&](auto &r) { return how == 0 ? seg.get_random_pt(r) : how == 1 ? seg.get_random_pt(r, p[pa]) : seg.get_random_pt(r, p[a], p[b]); };
      if (o.arg(5) % 4) {
        Scripted r{z};
        auto y = draw(r);
        if (r.calls != 1) FAIL(U02, "random-calls", "a random point asks the generator %d times", r.calls);
        if (r.asked != hi - lo) FAIL(U02, "random-range", "a random point of [%s,%s[ asks for a number below %s", show(lo).c_str(), show(hi).c_str(), show(r.asked).c_str());
        return set(s, lo + z % (hi - lo), beta, y, "get_random_pt");
      }
      auto y = draw(*rng);
      if (y < time_pt(lo, 1) || !(y < time_pt(hi, 1))) {
        // the generator's double cannot resolve intervals of more than 2^53 points at their upper end
        if (!(y == time_pt(hi, 1) && hi - lo > (1ULL << 53))) FAIL(U02, "random-range", "a random point is not in [%s,%s[", show(lo).c_str(), show(hi).c_str());
      }
      sim::probe("real generator");
      return;
    }
    if (k == "psave") {
      int f  = (int)o.arg(1);
      auto n = "pt" + std::to_string(f);
      auto &w = W();
      w.ok[f] = 2;
      try {
        h5::file file("points.h5", 'a');
        h5_write(h5::group(file), n, p[s]);
        w.ok[f]    = 1;
        w.saved[f] = m[s];
        sim::probe("saved");
      } catch (h5::io_error const &) { sim::probe("save failed"); }
      check(s, "after saving");
      return;
    }
    if (k == "pload") {
      int f   = (int)o.arg(1);
      auto n  = "pt" + std::to_string(f);
      auto &w = W();
      try {
        h5::file file("points.h5", 'r');
        time_pt y;
        h5_read(h5::group(file), n, y);
        if (w.ok[f] == 0) FAIL(U02, "restored", "a point was read which was never saved");
        if (w.ok[f] == 1) {
          set(s, w.saved[f].n, w.saved[f].beta, y, "restored");
          sim::probe("restored");
        }
      } catch (h5::io_error const &) { sim::probe("load failed"); } catch (std::exception const &e) {
        if (w.ok[f] == 1) FAIL(U02, "restored", "a point that was saved cannot be read: %s", e.what());
      }
      return;
    }
  }
  void go() {
    u64 z = sim::mix(sim::plan().seed, 5);
    beta  = z % 4 == 0 ? 1 : z % 4 == 1 ? 10 : (double)(z % 1000 + 1) / 7;
    rng.emplace("", (uint32_t)(z % 10000 + 1));
    auto const &ops = sim::plan().ops;
    for (; W().pc < (int)ops.size();) {
      auto const &o = ops[W().pc++];
      sim::trace("op %s", o.name.c_str());
      step(o);
      for (int s = 0; s < NPT; ++s) check(s, o.name.c_str());
      sim::step(1000);
    }
  }
};

EXPORT void wl_setup() {
  static World *w = nullptr;
  delete w;
  w            = new World;
  sim::world() = w;
}
EXPORT void wl_finish() {}
// what is printed is thrown away
struct Sink : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(char const *, std::streamsize n) override { return n; }
};
EXPORT void wl_rank() {
  static Sink *sink = new Sink;
  auto *old         = std::cerr.rdbuf(sink);
  h5::oracle_access = false;
  sim::fail_new(0);
  if (sim::cfg("logs"))
    Logs{}.go();
  else
    Points{}.go();
  std::cerr.rdbuf(old);
}
