#include "trf_mats.hpp"
namespace tw {
  std::unique_ptr<Proc> make_mats0() { return std::make_unique<Mats<scalar_valued>>(); }
}
