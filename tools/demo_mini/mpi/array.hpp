#include "mpi.hpp"
