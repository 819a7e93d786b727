#include "gnulib/gl_xlist.h"
