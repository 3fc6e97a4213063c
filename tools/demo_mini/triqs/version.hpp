#pragma once
#include <string>
#define TRIQS_VERSION "0"
namespace triqs { const std::string git_hash = "demo"; const std::string version = "demo"; }
