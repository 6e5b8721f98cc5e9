#define FAM 2
#include "mergeworld.hpp"
