#include "trf_mats.hpp"
namespace tw {
  std::unique_ptr<Proc> make_mats1() { return std::make_unique<Mats<matrix_valued>>(); }
}
