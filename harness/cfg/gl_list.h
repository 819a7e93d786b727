#include "gnulib/gl_list.h"
