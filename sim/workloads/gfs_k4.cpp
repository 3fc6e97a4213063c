#include "gfs_proc.hpp"
using namespace gw;
void gfs_k8() { Proc<gf<mesh::prod<mesh::brzone, mesh::imfreq>, matrix_valued>>{}.go(); }
void gfs_k9() { Proc<gf<mesh::prod<mesh::imfreq, mesh::imfreq>, scalar_valued>>{}.go(); }
