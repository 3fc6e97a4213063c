// Workload: operators of second quantization (ops_alg.cpp), states and partitions (ops_hs.cpp), exact diagonalization
// (ops_ad.cpp), each driven through random histories with failing allocations, I/O errors and crashes.
#include "sim.hpp"
#include <cstdint>
namespace ow {
  void o01_body();
  void o02_body();
  void o03_body();
  void o01_setup();
  void o02_setup();
  void o03_setup();
  void o01_generate(sim::Rng &, sim::Plan &);
  void o02_generate(sim::Rng &, sim::Plan &);
  void o03_generate(sim::Rng &, sim::Plan &);
} // namespace ow
#define EXPORT extern "C" __attribute__((visibility("default")))
static int64_t part() { return sim::cfg("part"); }
EXPORT void wl_generate(sim::Rng &g, sim::Plan &p) {
  int64_t prop = p.cfg.count("prop") ? p.cfg["prop"] : 0;
  p.cfg["part"] = prop ? prop : g.range(1, 3);
  if (p.cfg["part"] != 3) p.cfg["ranks"] = 1;
  (p.cfg["part"] == 1 ? ow::o01_generate : p.cfg["part"] == 2 ? ow::o02_generate : ow::o03_generate)(g, p);
}
EXPORT void wl_setup() { (part() == 1 ? ow::o01_setup : part() == 2 ? ow::o02_setup : ow::o03_setup)(); }
EXPORT void wl_finish() {}
EXPORT void wl_rank() { (part() == 1 ? ow::o01_body : part() == 2 ? ow::o02_body : ow::o03_body)(); }
