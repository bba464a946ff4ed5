// The engine of pbt.hpp: search, shrinking and replay
#define PBT_MAIN
#include "pbt.hpp"
