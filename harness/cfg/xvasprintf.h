#ifndef VH_XVASPRINTF_H_
#define VH_XVASPRINTF_H_
#include <stdarg.h>
char *xasprintf(const char *format, ...);
char *xvasprintf(const char *format, va_list args);
#endif
