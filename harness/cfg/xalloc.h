/* gnulib's allocation interface, as the sources use it. */
#ifndef VH_XALLOC_H_
#define VH_XALLOC_H_
#include <stddef.h>
void *xmalloc(size_t s);
void *xzalloc(size_t s);
void *xcalloc(size_t n, size_t s);
void *xrealloc(void *p, size_t s);
void *xmemdup(void const *p, size_t s);
char *xstrdup(char const *str);
#endif
