// Workload: Green's functions on simulated processes: histories of operations with failing allocations, collective operations,
// storage with crashes and I/O errors. The processes themselves are in gfs_proc.hpp, for several types in gfs_k*.cpp.
#include "gfs_common.hpp"
#define EXPORT extern "C" __attribute__((visibility("default")))
using namespace gw;

#define KINDS(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17)
#define DECL(n) void gfs_k##n();
KINDS(DECL)
static void (*const body[])() = {
#define NAME(n) gfs_k##n,
   KINDS(NAME)};
static constexpr int nkinds = sizeof(body) / sizeof(body[0]);

EXPORT void wl_generate(sim::Rng &g, sim::Plan &p) {
  int64_t prop   = p.cfg.count("prop") ? p.cfg["prop"] : 0;
  if (prop == 0) prop = g.range(1, 4);
  int64_t ranks  = prop == G01 ? (g.chance(0.1) ? 1 : g.range(2, 4)) : prop == G02 ? g.range(1, 2) : 1;
  p.cfg["ranks"] = ranks;
  p.cfg["kind"]  = g.range(0, nkinds - 1);
  p.cfg["mv"]    = g.range(0, 26);
  int n          = (int)g.range(2, prop == G01 ? 10 : 14);
  auto code      = [&] { return (int64_t)(g.next() >> 24); };
  auto num       = [&] { return g.range(0, 1 << 20); };
  for (int i = 0; i < n; ++i) {
    int r      = (int)g.range(0, ranks - 1);
    double u   = g.uniform();
    int64_t a = g.range(0, 2), b = g.range(0, 2);
    char const *name = nullptr;
    if (prop == G01 && u < 0.55) {
      name = g.chance(0.3) ? "bcast" : "reduce";
      r    = -1;
    } else if (prop == G02 && u < 0.6)
      name = u < 0.22 ? "save" : u < 0.44 ? "load" : u < 0.5 ? "serial" : u < 0.55 ? "old" : "badread";
    else if (prop == G04 && u < 0.65)
      name = u < 0.35 ? "eval" : "func";
    else if (prop == G03 && u < 0.12)
      name = u < 0.07 ? "func" : "eval";
    else {
      double v = g.uniform();
      name     = v < 0.1 ? "make" : v < 0.2 ? "fill" : v < 0.3 ? "copy" : v < 0.35 ? "move" : v < 0.39 ? "swap" : v < 0.48 ? "vassign" : v < 0.51 ? "scalar" : v < 0.73 ? "expr" : v < 0.77 ? "cmp" : v < 0.83 ? "view" :
           v < 0.88                        ? "slice" :
           v < 0.91                        ? "map" :
           v < 0.93                        ? "badmake" :
           v < 0.965                       ? "tail" :
                                             "fit";
    }
    p.ops.push_back({r, name, {a, b, code(), num(), g.range(0, 3)}});
    std::string s = name;
    if (prop == G03 && g.chance(0.08) && (s == "make" || s == "copy" || s == "expr" || s == "map" || s == "fill" || s == "vassign"))
      p.faults.push_back({"alloc", {r, (int64_t)p.ops.size() - 1, g.chance(0.6) ? g.range(1, 6) : g.range(1, 60)}});
  }
  if (prop == G02) {
    int nf = (int)g.range(0, 3);
    for (int i = 0; i < nf; ++i) p.faults.push_back({"io", {g.range(0, ranks - 1), g.chance(0.5) ? g.range(1, 60) : g.range(1, 400), g.range(0, 1)}});
  }
}
EXPORT void wl_setup() {
  static World *w = nullptr;
  delete w;
  w = new World;
  w->at.resize(sim::plan().ops.size());
  sim::world() = w;
}
EXPORT void wl_finish() {}
EXPORT void wl_rank() { body[sim::cfg("kind") % nkinds](); }
