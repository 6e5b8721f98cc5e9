#define FAM 0
#include "mergeworld.hpp"
