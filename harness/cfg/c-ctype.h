#include "gnulib/c-ctype.h"
