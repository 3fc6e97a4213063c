// Entry points of the workload "trf"
#include "trf_common.hpp"
#define EXPORT extern "C" __attribute__((visibility("default")))
namespace tw {
  std::unique_ptr<Proc> make_mats0(), make_mats1(), make_mats2(), make_lat(), make_real0(), make_real1(), make_leg();
}
using namespace tw;
EXPORT void wl_generate(sim::Rng &g, sim::Plan &p) {
  p.cfg["ranks"] = 1;
  int64_t kind   = p.cfg["kind"] = g.range(0, 6);
  int n                          = (int)g.range(1, kind == 6 ? 8 : 7);
  static const std::vector<std::string> mats = {"make", "make", "direct", "direct", "direct", "inverse", "inverse", "inverse", "block", "prod", "density", "refuse"};
  static const std::vector<std::string> lat  = {"make", "ft", "ft", "ft", "prod", "prod", "multi", "refuse"};
  static const std::vector<std::string> real = {"make", "ft", "ft", "trip", "trip", "poles", "block", "refuse"};
  static const std::vector<std::string> leg  = {"make", "direct", "direct", "inverse", "inverse", "density", "refreq", "disc", "rebin", "pade", "pade", "refuse"};
  auto const &names = kind < 3 ? mats : kind == 3 ? lat : kind < 6 ? real : leg;
  for (int i = 0; i < n; ++i) {
    p.ops.push_back({0, g.pick(names), {g.range(0, 1), g.range(0, 1), (int64_t)(g.next() >> 24), g.range(0, 11)}});
    if (g.chance(0.12)) p.faults.push_back({g.chance(0.7) ? "alloc" : "new", {i, g.chance(0.6) ? g.range(1, 12) : g.range(1, 120)}});
  }
}
EXPORT void wl_setup() {}
EXPORT void wl_finish() {}
EXPORT void wl_rank() {
  auto const &P = sim::plan();
  using F       = std::unique_ptr<Proc> (*)();
  static F const make[] = {make_mats0, make_mats1, make_mats2, make_lat, make_real0, make_real1, make_leg};
  auto proc = make[(uint64_t)sim::cfg("kind") % 7]();
  // the library tells its users about coarse meshes on stderr
  auto *old = std::cerr.rdbuf(nullptr);
  for (size_t k = 0; k < P.ops.size(); ++k) {
    auto const &op = P.ops[k];
    sim::step(100);
    where = op.name;
    sim::trace("%s %ld %ld %ld %ld", op.name.c_str(), (long)op.arg(0), (long)op.arg(1), (long)op.arg(2), (long)op.arg(3));
    arm_n = 0;
    for (auto const &f : P.faults)
      if (f.arg(0) == (int64_t)k) {
        arm_kind = f.kind;
        arm_n    = f.arg(1);
      }
    bool armed = arm_n > 0;
    try {
      proc->run(op);
    } catch (std::bad_alloc const &) {
      if (!armed) throw;
      sim::fired(arm_kind == "new" ? "new" : "alloc");
      where += " (an allocation failed)";
    }
    std::cerr.clear();
    proc->check();
    sim::probe(("op-" + op.name).c_str());
  }
  std::cerr.rdbuf(old);
}
