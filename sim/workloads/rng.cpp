// Workload: several random generators used in an arbitrary interleaving by simulated processes, with moves, copies and
// previews at any position of their buffers, and user functions which fail inside a refill.
// Real code: mc_tools/{random_generator,MersenneRNG}, utility/buffered_function. Oracle: the boost engines themselves
// (for "", an independent Mersenne twister), drawn one by one.
#include "sim.hpp"
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/variate_generator.hpp>
#include <triqs/mc_tools/random_generator.hpp>
#include <cmath>
#include <cfloat>
#include <optional>

#define EXPORT extern "C" __attribute__((visibility("default")))
using triqs::mc_tools::random_generator;
using triqs::utility::buffered_function;
static const char *GENS[8] = {"", "mt19937", "mt11213b", "ranlux3", "lagged_fibonacci607", "lagged_fibonacci1279", "lagged_fibonacci2281", "lagged_fibonacci4423"};

EXPORT void wl_generate(sim::Rng &g, sim::Plan &p) {
  p.cfg["ranks"] = g.range(1, 2);
  int n          = (int)g.range(2, 14);
  int slots      = (int)g.range(1, 4);
  int64_t kinds  = g.chance(0.4) ? 8 : 2;
  for (int i = 0; i < n; ++i) {
    int64_t s = g.range(0, slots - 1), rk = g.range(0, p.cfg["ranks"] - 1);
    int64_t len = g.chance(0.4) ? g.range(0, 12) : g.chance(0.6) ? g.range(980, 1020) : g.range(0, 4000);
    double u = g.uniform();
    auto newop = [&] { p.ops.push_back({(int)rk, "new", {s, g.range(0, kinds - 1), g.chance(0.4) ? g.range(0, 3) : g.chance(0.1) ? 4294967295LL : (int64_t)g.below(1LL << 32)}}); };
    if (i < slots) {
      s = i;
      for (rk = 0; rk < p.cfg["ranks"]; ++rk) newop();
    } else if (u < 0.08) newop();
    else if (u < 0.42) p.ops.push_back({(int)rk, "draw", {s, len}});
    else if (u < 0.52) p.ops.push_back({(int)rk, "preview", {s, g.range(1, 3)}});
    else if (u < 0.66) p.ops.push_back({(int)rk, "int", {s, len, g.chance(0.3) ? 1 : g.chance(0.5) ? g.range(2, 10) : (int64_t)1 << g.range(4, 40), g.range(0, 2)}});
    else if (u < 0.74) p.ops.push_back({(int)rk, "range", {s, len, g.range(-50, 50), g.range(1, 100)}});
    else if (u < 0.78) {
      int64_t t = g.range(0, slots - 1);
      p.ops.push_back({(int)rk, "copy", {s, t}});
      p.ops.push_back({(int)rk, "draw", {g.chance(0.5) ? s : t, g.range(900, 2100)}});
    }
    else if (u < 0.84) p.ops.push_back({(int)rk, "move", {s, g.range(0, slots - 1)}});
    else if (u < 0.92) p.ops.push_back({(int)rk, "copybuf", {s, g.range(1, 30), g.range(0, 60), g.range(0, 80)}});
    else p.ops.push_back({(int)rk, "buf", {s, g.chance(0.5) ? g.range(1, 8) : g.range(1, 64), g.range(1, 150), g.range(0, 5)}});
  }
  int nf = g.chance(0.5) ? 0 : (int)g.range(1, 3);
  for (int i = 0; i < nf; ++i) p.faults.push_back({"fthrow", {g.range(0, p.cfg["ranks"] - 1), g.range(1, 200)}});
}
EXPORT void wl_setup() {}
EXPORT void wl_finish() {}

// ---------------------------------------------------------------- reference streams
struct Ref {
  virtual ~Ref()       = default;
  virtual double next() = 0;
  virtual std::unique_ptr<Ref> clone() const = 0;
};
template <class E> struct BoostRef : Ref {
  boost::variate_generator<E, boost::uniform_real<>> v;
  BoostRef(uint32_t s) : v(E(s), boost::uniform_real<>()) {}
  double next() override { return v(); }
  std::unique_ptr<Ref> clone() const override { return std::make_unique<BoostRef>(*this); }
};
struct MtRef : Ref { // MT19937 with the seeding x <- 69069 x of the odd seed
  uint32_t s[624];
  int i = 624;
  MtRef(uint32_t seed) {
    uint32_t x = seed | 1u;
    for (auto &y : s) {
      y = x;
      x *= 69069u;
    }
  }
  double next() override {
    if (i == 624) {
      for (int k = 0; k < 624; ++k) {
        uint32_t y = (s[k] & 0x80000000u) | (s[(k + 1) % 624] & 0x7fffffffu);
        s[k]       = s[(k + 397) % 624] ^ (y >> 1) ^ ((s[(k + 1) % 624] & 1) ? 0x9908B0DFu : 0);
      }
      i = 0;
    }
    uint32_t y = s[i++];
    y ^= y >> 11;
    y ^= (y << 7) & 0x9D2C5680u;
    y ^= (y << 15) & 0xEFC60000u;
    y ^= y >> 18;
    return DBL_EPSILON + (double)y / 4294967295.0 * (1 - 2 * DBL_EPSILON);
  }
  std::unique_ptr<Ref> clone() const override { return std::make_unique<MtRef>(*this); }
};
static std::unique_ptr<Ref> make_ref(int k, uint32_t s) {
  using namespace boost;
  switch (k) {
    case 0: return std::make_unique<MtRef>(s);
    case 1: return std::make_unique<BoostRef<mt19937>>(s);
    case 2: return std::make_unique<BoostRef<mt11213b>>(s);
    case 3: return std::make_unique<BoostRef<ranlux3>>(s);
    case 4: return std::make_unique<BoostRef<lagged_fibonacci607>>(s);
    case 5: return std::make_unique<BoostRef<lagged_fibonacci1279>>(s);
    case 6: return std::make_unique<BoostRef<lagged_fibonacci2281>>(s);
    default: return std::make_unique<BoostRef<lagged_fibonacci4423>>(s);
  }
}

struct Slot {
  std::unique_ptr<random_generator> g;
  std::unique_ptr<Ref> ref;
  double ahead = 0;
  bool has_ahead = false;
  std::string what;
  int64_t n = 0;
  double expect() {
    ++n;
    if (has_ahead) {
      has_ahead = false;
      return ahead;
    }
    return ref->next();
  }
  double peek() {
    if (!has_ahead) {
      ahead     = ref->next();
      has_ahead = true;
    }
    return ahead;
  }
};

static void bad(Slot const &s, double x, double y, char const *how) {
  sim::violation("stream", "generator %s: number %lld (%s) is %.17g, its seed determines %.17g", s.what.c_str(), (long long)s.n, how, x, y);
}

// buffered_function with a counting function
struct UserError : std::runtime_error {
  using std::runtime_error::runtime_error;
};
static thread_local int64_t fcalls = 0;
struct Counter {
  int64_t i = 0;
  double operator()() {
    ++fcalls;
    for (auto const &f : sim::plan().faults)
      if (f.kind == "fthrow" && f.arg(0) == sim::rank() && f.arg(1) == fcalls) {
        sim::fired("exception in the buffered function");
        throw UserError("injected");
      }
    return (double)++i;
  }
};
static void counted(buffered_function<double> &b, double &last, int64_t n, bool &threw) {
  for (int64_t k = 0; k < n; ++k) {
    try {
      double p = b.preview(), x = b();
      if (p != x) sim::violation("preview", "preview gives %g, the next element is %g", p, x);
      if (!threw && x != last + 1) sim::violation("buffer-order", "element %g of a counting function follows %g", x, last);
      if (threw && x <= last) sim::violation("buffer-repeat", "after an exception in the function, element %g follows %g: elements are handed out twice", x, last);
      last = x;
    } catch (UserError const &) {
      threw = true;
      sim::probe("refill failed");
    }
  }
}

// a default constructed buffered function has nothing to give
static void empty_buffer() {
  static char mem[sizeof(buffered_function<double>)];
  for (int fill : {0, 0x11, 0xff}) {
    memset(mem, fill, sizeof mem);
    auto b   = new (mem) buffered_function<double>;
    bool thr = false;
    try {
      (*b)();
    } catch (std::exception const &) { thr = true; }
    if (!thr) sim::violation("empty-buffer", "a buffered function without function gives an element instead of throwing");
    b->~buffered_function<double>();
  }
}
EXPORT void wl_rank() {
  empty_buffer();
  std::vector<Slot> S(8);
  fcalls = 0;
  for (auto const &o : sim::plan().ops) {
    if (o.rank >= 0 && o.rank != sim::rank()) continue;
    sim::step(10 + sim::delay("op") % 1000);
    auto &s = S[o.arg(0) & 7];
    if (o.name == "new") {
      int k  = (int)o.arg(1) & 7;
      s.g    = std::make_unique<random_generator>(GENS[k], (uint32_t)o.arg(2));
      s.ref  = make_ref(k, (uint32_t)o.arg(2));
      s.has_ahead = false;
      s.n    = 0;
      s.what = std::string(k ? GENS[k] : "(default)") + "/" + std::to_string(o.arg(2));
      if (s.g->name() != GENS[k]) sim::violation("name", "generator %s says it is %s", GENS[k], s.g->name().c_str());
    } else if (o.name == "buf" || o.name == "copybuf") {
      double last = 0;
      bool threw  = false;
      try {
        if (o.name == "buf") {
          buffered_function<double> b(Counter{}, (size_t)o.arg(1));
          double l2 = 0;
          counted(b, last, o.arg(2), threw);
        } else {
          buffered_function<double> b(Counter{}, (size_t)o.arg(1));
          counted(b, last, o.arg(2), threw);
          buffered_function<double> c(b), d;
          double l1 = last, l2 = last, l3;
          bool t1 = threw, t2 = threw;
          counted(c, l1, o.arg(3), t1);
          counted(b, l2, o.arg(3) / 2, t2); // the original is not disturbed by its copy
          d  = std::move(b);
          counted(d, l2, o.arg(3), t2);
          d  = c;
          l3 = l1;
          counted(d, l3, o.arg(3), t1);
          counted(c, l1, o.arg(3), t1);
        }
      } catch (UserError const &) { sim::probe("construction failed"); }
    } else if (!s.g) {
      continue;
    } else if (o.name == "draw") {
      for (int64_t i = 0; i < o.arg(1); ++i) {
        double x = (*s.g)(), y = s.expect();
        if (x != y) bad(s, x, y, "drawn");
        if (!(x >= 0 && x < 1)) sim::violation("range", "%s gives %.17g", s.what.c_str(), x);
      }
    } else if (o.name == "preview") {
      for (int64_t i = 0; i < o.arg(1); ++i) {
        double x = s.g->preview(), y = s.peek();
        if (x != y) bad(s, x, y, "previewed");
      }
    } else if (o.name == "int") {
      int64_t m = o.arg(2);
      for (int64_t i = 0; i < o.arg(1); ++i) {
        int64_t x;
        if (o.arg(3) == 0 && m < (1LL << 31)) x = (*s.g)((int)m);
        else if (o.arg(3) == 1) x = (int64_t)(*s.g)((unsigned long)m);
        else x = (*s.g)((long)m);
        if (x < 0 || x >= m) sim::violation("range", "%s gives the integer %lld, not in [0,%lld[", s.what.c_str(), (long long)x, (long long)m);
        if (m == 1) continue; // may or may not draw: resynchronise below
        double y = s.expect();
        if (x != (int64_t)std::floor(m * y)) bad(s, (double)x, std::floor(m * y), "integer");
      }
      if (m == 1 && o.arg(1) > 0) {
        // a choice among one: the position is that of no draw, or of one draw per call
        double x = s.g->preview();
        if (x != s.peek()) {
          for (int64_t i = 0; i < o.arg(1); ++i) s.expect();
          if (x != s.peek()) bad(s, x, s.peek(), "after integers");
        }
      }
    } else if (o.name == "range") {
      for (int64_t i = 0; i < o.arg(1); ++i) {
        double a = (double)o.arg(2), b = a + (double)o.arg(3);
        double y = s.expect();
        double x = i % 2 ? (*s.g)(b - a) : (*s.g)(a, b), z = i % 2 ? (b - a) * y : a + (b - a) * y;
        if (std::abs(x - z) > 1e-12 * (1 + std::abs(z))) bad(s, x, z, "in a range");
        if (i % 2 ? (x < 0 || x >= b - a) : (x < a || x > b)) sim::violation("range", "%s gives %.17g", s.what.c_str(), x);
      }
    } else if (o.name == "copy") {
      auto &t = S[o.arg(1) & 7];
      if (&t == &s) continue;
      t.g         = std::make_unique<random_generator>(*s.g);
      t.ref       = s.ref->clone();
      t.has_ahead = s.has_ahead;
      t.ahead     = s.ahead;
      t.n         = s.n;
      t.what      = s.what;
    } else if (o.name == "move") {
      auto &t = S[o.arg(1) & 7];
      if (&t == &s) {
        // through a temporary
        random_generator tmp(std::move(*s.g));
        *s.g = std::move(tmp);
      } else {
        if (t.g) *t.g = std::move(*s.g);
        else t.g = std::make_unique<random_generator>(std::move(*s.g));
        t.ref       = std::move(s.ref);
        t.has_ahead = s.has_ahead;
        t.ahead     = s.ahead;
        t.n         = s.n;
        t.what      = s.what;
        if (t.g->name() != t.what.substr(0, t.what.find('/')) && t.what[0] != '(') sim::violation("name", "a moved generator forgets its name");
        s.g.reset();
      }
    }
    sim::trace("%s slot %lld pos %lld", o.name.c_str(), (long long)o.arg(0), (long long)s.n);
    sim::state(sim::mix(s.n % 1000, sim::mix(o.name.size() * 31 + o.name[0], s.what.size())));
  }
}
