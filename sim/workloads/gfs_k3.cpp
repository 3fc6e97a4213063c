#include "gfs_proc.hpp"
using namespace gw;
void gfs_k6() { Proc<gf<mesh::brzone, matrix_valued>>{}.go(); }
void gfs_k7() { Proc<gf<mesh::cyclat, scalar_valued>>{}.go(); }
