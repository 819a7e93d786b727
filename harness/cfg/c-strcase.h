#include "gnulib/c-strcase.h"
