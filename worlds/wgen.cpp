#define FAM 2
#include "setworld.hpp"
