#include "gnulib/hash.h"
