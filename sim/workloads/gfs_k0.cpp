#include "gfs_proc.hpp"
void gfs_k0() { gw::Proc<gw::gf<gw::mesh::imfreq, gw::matrix_valued>>{}.go(); }
void gfs_k1() { gw::Proc<gw::block_gf<gw::mesh::imfreq, gw::matrix_valued>>{}.go(); }
