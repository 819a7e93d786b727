/* Names as values: a name of at most 8 characters packs into 64 bits (longer
 * names pack to a value of their own, equal to no key). */
#ifndef VH_NAMES_H_
#define VH_NAMES_H_
#include "vh_emit.h"
struct vh_ghost G;
struct section *cur_section;
#define VH_NAMEMAX 12
#define VH_LONG UINT64_MAX
static uint64_t vh_pack(const char *s) {
	uint64_t w = 0;
	for (int i = 0; i < 8; i++) {
		if (!s[i]) return w;
		w |= (uint64_t)(unsigned char)s[i] << (8 * i);
	}
	return s[8] ? VH_LONG : w;
}
static unsigned char vh_lower(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static uint64_t vh_fold(const char *s) {
	uint64_t w = 0;
	for (int i = 0; i < 8; i++) {
		if (!s[i]) return w;
		w |= (uint64_t)vh_lower(s[i]) << (8 * i);
	}
	return s[8] ? VH_LONG : w;
}
/* any name of at most VH_NAMEMAX characters */
static void vh_name(char *b) {
	for (int i = 0; i < VH_NAMEMAX; i++) b[i] = vh_range(-128, 127);
	b[VH_NAMEMAX] = 0;
}
#endif
