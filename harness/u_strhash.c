/* C20: string keys.  Equality of names (case folded or not) and agreement of
 * the hash with it.
 * @function dict_str_equal dict_str_equal_case dict_direct_hash dict_direct_equal hash_djb2 hash_djb2_case
 * @callees c_strcasecmp strcmp c_tolower
 * @props C20
 * @bounded names of at most 7 characters (hashes: 4 characters, hash modulo 65536)
 * @variant equal -DVH_WHAT=0
 * @variant hash -DVH_WHAT=1 -DVH_L=4
 * @variant hashcase -DVH_WHAT=2 -DVH_L=4
 * @unwind 10
 * @opts --pointer-check
 */
#include "vh.h"
struct vh_ghost G;
#include "c-ctype.h"
#ifndef VH_L
#define VH_L 7
#endif
#define MAXL VH_L
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int c_strcasecmp(const char *a, const char *b) {
	for (int i = 0; i <= MAXL; i++) {
		int d = low(a[i]) - low(b[i]);
		if (d || !a[i]) return d;
	}
	return 0;
}
#include "hash-djb2.c"
#include "dict.c"
void vh_main(void) {
	G = (struct vh_ghost){0};
	char a[MAXL + 1], b[MAXL + 1];
	for (int i = 0; i < MAXL; i++) { a[i] = vh_range(-128, 127); b[i] = vh_range(-128, 127); }
	a[MAXL] = b[MAXL] = 0;
	_Bool same = 1, fold = 1, end = 0;
	for (int i = 0; i < MAXL; i++) {
		if (end) continue;
		if (a[i] != b[i]) same = 0;
		if (low(a[i]) != low(b[i])) fold = 0;
		if (!a[i] || !b[i]) end = 1;
	}
	size_t n = 1 << 16;
#if VH_WHAT == 0
	CHECK("dict_str_equal: the same characters", dict_str_equal(a, b) == same);
	CHECK("dict_str_equal_case: the same but for letter case", dict_str_equal_case(a, b) == fold);
	CHECK("dict_direct_equal: the same pointer", dict_direct_equal(a, b) == 0 && dict_direct_equal(a, a));
	COVER("equal");
#elif VH_WHAT == 1
	ASSUME(same);
	CHECK("hash_djb2: equal names hash alike", hash_djb2(a, n) == hash_djb2(b, n));
	CHECK("hash_djb2: within the table", hash_djb2(a, n) < n);
	CHECK("dict_direct_hash: within the table", dict_direct_hash(a, n) < n);
	COVER("same");
#else
	ASSUME(fold);
	CHECK("hash_djb2_case: names equal but for case hash alike", hash_djb2_case(a, n) == hash_djb2_case(b, n));
	CHECK("hash_djb2_case: within the table", hash_djb2_case(a, n) < n);
	COVER("fold");
#endif
}
