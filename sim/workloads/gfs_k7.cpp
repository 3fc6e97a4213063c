#include "gfs_proc.hpp"
using namespace gw;
void gfs_k14() { Proc<gf<mesh::dlr_imfreq, scalar_valued>>{}.go(); }
void gfs_k15() { Proc<block_gf<mesh::refreq, matrix_valued>>{}.go(); }
