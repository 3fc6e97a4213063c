#include "gfs_proc.hpp"
using namespace gw;
void gfs_k4() { Proc<gf<mesh::imtime, matrix_real_valued>>{}.go(); }
void gfs_k5() { Proc<block2_gf<mesh::imtime, scalar_valued>>{}.go(); }
