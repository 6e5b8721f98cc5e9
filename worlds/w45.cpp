#define FAM 1
#include "setworld.hpp"
