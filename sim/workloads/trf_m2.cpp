#include "trf_mats.hpp"
namespace tw {
  std::unique_ptr<Proc> make_mats2() { return std::make_unique<Mats<tensor_valued<3>>>(); }
}
