#include "trf_real.hpp"
namespace tw {
  std::unique_ptr<Proc> make_real1() { return std::make_unique<Real<matrix_valued>>(); }
}
