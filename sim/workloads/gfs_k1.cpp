#include "gfs_proc.hpp"
using namespace gw;
void gfs_k2() { Proc<gf<mesh::refreq, scalar_valued>>{}.go(); }
void gfs_k3() { Proc<gf<mesh::retime, tensor_valued<3>>>{}.go(); }
