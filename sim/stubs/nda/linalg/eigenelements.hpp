#pragma once
#include <nda/nda.hpp>
