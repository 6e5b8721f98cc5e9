#define FAM 1
#include "mergeworld.hpp"
