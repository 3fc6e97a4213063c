#include "trf_real.hpp"
namespace tw {
  std::unique_ptr<Proc> make_real0() { return std::make_unique<Real<scalar_valued>>(); }
}
