#include "gnulib/gl_avltree_list.h"
