/* cbmc does not promote variadic arguments: do it here ((x) + 0 promotes
 * integers and leaves pointers alone). */
#ifndef VH_PRINTF_H_
#define VH_PRINTF_H_
#define VH_FP1(f, a) vh_fprintf(f, a)
#define VH_FP2(f, a, b) vh_fprintf(f, a, (b) + 0)
#define VH_FP3(f, a, b, c) vh_fprintf(f, a, (b) + 0, (c) + 0)
#define VH_FP4(f, a, b, c, d) vh_fprintf(f, a, (b) + 0, (c) + 0, (d) + 0)
#define VH_FP5(f, a, b, c, d, e) vh_fprintf(f, a, (b) + 0, (c) + 0, (d) + 0, (e) + 0)
#define VH_FP6(f, a, b, c, d, e, g) vh_fprintf(f, a, (b) + 0, (c) + 0, (d) + 0, (e) + 0, (g) + 0)
#define VH_FPSEL(a, b, c, d, e, f, X, ...) X
#define VH_FPRINTF(f, ...) VH_FPSEL(__VA_ARGS__, VH_FP6, VH_FP5, VH_FP4, VH_FP3, VH_FP2, VH_FP1, 0)(f, __VA_ARGS__)
#endif
