#pragma once
#include "../h5.hpp"
