#include "gfs_proc.hpp"
using namespace gw;
void gfs_k12() { Proc<gf<mesh::prod<mesh::cyclat, mesh::imtime, mesh::discrete>, scalar_valued>>{}.go(); }
void gfs_k13() { Proc<gf<mesh::dlr_imtime, matrix_valued>>{}.go(); }
