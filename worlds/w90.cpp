#define FAM 0
#include "setworld.hpp"
