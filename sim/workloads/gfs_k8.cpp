#include "gfs_proc.hpp"
using namespace gw;
void gfs_k16() { Proc<gf<mesh::imfreq, scalar_valued>>{}.go(); }
void gfs_k17() { Proc<gf<mesh::imfreq, tensor_valued<4>>>{}.go(); }
