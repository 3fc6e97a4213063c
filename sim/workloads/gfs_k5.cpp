#include "gfs_proc.hpp"
using namespace gw;
void gfs_k10() { Proc<block_gf<mesh::dlr, matrix_valued>>{}.go(); }
void gfs_k11() { Proc<gf<mesh::legendre, matrix_valued>>{}.go(); }
