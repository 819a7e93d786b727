/* C21: the text of the listing, character number W of it for any W.
 * @function listing_add_line listing_print listing_free_all
 * @callees fprintf fputc slist_append slist_remove
 * @props C21
 * @variant text -DVH_M=0
 * @variant bytes -DVH_M=1
 * @variant lines -DVH_M=2
 * @variant off -DVH_M=3 -DVH_OFF
 * @bounded lists of at most 3 lines, of at most 10 characters and 9 bytes, given addresses and characters, any bytes
 * @unwind 70
 * @opts --pointer-check
 */
#include "vh.h"
struct vh_ghost G;
#define VH_NO_EMIT_CONTRACT
#define VH_NO_ERROR_CONTRACT
#include "vh_emit.h"
#include <stdarg.h>
#include <stdio.h>
struct section *cur_section;
#include "asm6809.h"
#include "section.h"
struct asm6809_options asm6809_options;
void error(enum error_type t, const char *f, ...) { G.err[t]++; }
/* the file: length and character W */
static unsigned n, W, nf; static int ch;
static FILE *F;
static void put(int c) { if (n == W) ch = c & 0xff; n++; VH_SAY(printf("%c", c);) }
static int vh_fputc(int c, FILE *f) { ASSERT(f == F, "the file given"); put(c); return c & 0xff; }
static void hex(unsigned v, int w) {
	static const unsigned most[] = { 0, 0xf, 0xff, 0xfff, 0xffff };
	ASSERT(w <= 4 && v <= most[w], "formatted: as wide as the format says");
	for (int i = w - 1; i >= 0; i--) { unsigned d = (v >> (4 * i)) & 15; put(d < 10 ? '0' + d : 'A' + d - 10); }
}
static void str(const char *s, int w) { int l = 0; while (s[l]) l++; for (; w > l; w--) put(' '); for (int j = 0; j < l; j++) put(s[j]); }
/* formats: %04X %02X %X %c %s %d-free text */
static int vh_fprintf(FILE *f, const char *fmt, ...) {
	ASSERT(f == F, "the file given");
	va_list ap; va_start(ap, fmt); unsigned n0 = n;
	for (int i = 0; fmt[i]; i++) {
		if (fmt[i] != '%') { put(fmt[i]); continue; }
		i++;
		int w = 1;
		if (fmt[i] == '0') { i++; w = fmt[i++] - '0'; }
		if (fmt[i] == 'X') hex(va_arg(ap, unsigned), w);
		else if (fmt[i] == 'c') put(va_arg(ap, int));
		else if (fmt[i] == 's') str(va_arg(ap, const char *), 0);
		else if (fmt[i] == '*' && fmt[i + 1] == 's') { i++; int w = va_arg(ap, int); str(va_arg(ap, const char *), w); }
		else ASSERT(0, "format known to the harness");
	}
	va_end(ap);
	return n - n0;
}
#include "slist.c"
#define fputc vh_fputc
#define putc vh_fputc
#include "vh_printf.h"
#define fprintf VH_FPRINTF
#define fputs(s, f) vh_fprintf(f, "%s", s)
#include "listing.c"
#undef fputc
#undef putc
#undef fprintf
#undef fputs
static uint8_t data[3][16];
static struct section_span sp[3];
static unsigned m; static int mch;
static void want(int c) { if (m == W) mch = c & 0xff; m++; }
static int dig(int v) { return v < 10 ? '0' + v : 'A' + v - 10; }
/* a line: address (none: negative), number of bytes, how far into their span, text */
struct l { int pc, nb, at; const char *text; };
static void list(int nl, const struct l *l) {
	n = m = 0; ch = mch = -1;
	W = vh_range(0, 200);
#ifndef VH_CBMC
	W = W % 40;
#endif
	for (int i = 0; i < nl; i++) {
		for (int j = 0; j < 16; j++) data[i][j] = vh_range(0, 255);
		sp[i] = (struct section_span){ .ref = 1, .org = l[i].pc - l[i].at, .put = vh_range(0, 0xffff), .size = l[i].at + l[i].nb, .data = data[i] };
		listing_add_line(l[i].pc, l[i].nb, l[i].at >= 0 ? &sp[i] : NULL, l[i].text);
	}
	listing_print(F);
#ifndef VH_OFF
	for (int i = 0; i < nl; i++) {
		unsigned m0 = m;
		if (l[i].pc >= 0) { for (int k = 12; k >= 0; k -= 4) want(dig((l[i].pc >> k) & 15)); want(' '); want(' '); }
		if (l[i].at >= 0) for (int j = 0; j < l[i].nb; j++) { uint8_t v = data[i][j + l[i].at]; want(dig(v >> 4)); want(dig(v & 15)); }
		want(' ');
		while (m - m0 < 22) want(' ');
		int col = 0;
		for (const char *t = l[i].text; *t; t++) {
			if (*t == '\t') do { want(' '); col++; } while (col % 8); else { want(*t); col++; }
		}
		want('\n');
	}
#endif
	CHECK("listing: its length", n == m);
	CHECK("listing: every character", ch == mch);
	listing_free_all();
	n = 0;
	listing_print(F);
	CHECK("listing: empty once released", n == 0);
}
#define L(...) do { static const struct l a[] = { __VA_ARGS__ }; list(sizeof a / sizeof *a, a); } while (0)
void vh_main(void) {
	G = (struct vh_ghost){0};
	asm6809_options = (struct asm6809_options){0};
#ifndef VH_OFF
	asm6809_options.listing_required = 1;
#endif
	F = (FILE *)&n;
#if VH_M == 0
	static const char *const texts[] = { "", "a", "\t", "\ta", "a\tb", "1234567\tb", "12345678\tb", "\t\t", "abc\t\td\te", "\xff\x80%d\x01", "12345678\t9\t", " \t ", "%s%n\\" };
	for (int i = 0; i < 13; i++) { struct l l = { i & 1 ? -1 : 0x1a2b, 0, i & 2 ? 0 : -1, texts[i] }; list(1, &l); }
#elif VH_M == 1
	for (int nb = 0; nb <= 9; nb++) { struct l l = { nb * 0x1007, nb, nb % 3, "a\tb" }; list(1, &l); }
	L({ 0xffff, 1, 0, "a" }); L({ 0x10000, 0, -1, "end" }); L({ 0, 4, 0, "" }); L({ 0x80, 3, -1, "\trmb 3" }); L({ 0xfff0, 2, 14, "a" }); L({ 0x8000, 12, 0, "x" });
#else
	list(0, NULL);
	L({ 0x1000, 2, 0, "one" }, { -1, 0, -1, "\ttwo" }); L({ 5, 1, 1, "a" }, { 6, 1, 2, "b" }, { 7, 0, -1, "c" }); L({ -1, 0, -1, "" }, { -1, 0, -1, "" }, { -1, 0, -1, "" });
#endif
	COVER("end");
}
