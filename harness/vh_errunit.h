/* error.c: shared by u_error and u_errlevel */
#include "vh.h"
#include <stdarg.h>
struct vh_ghost G;
#include "asm6809.h"
#include "error.h"
#include "program.h"
#include "slist.h"
#include "xvasprintf.h"
struct asm6809_options asm6809_options;
struct slist *prog_ctx_stack;
#define NE 3
static char msg[NE][4] = { "m0", "m1", "m2" };
static unsigned nmsg, nfree;
char *xvasprintf(const char *f, va_list ap) { ASSERT(nmsg < NE, "harness: errors"); return msg[nmsg++]; }
/* stderr: character number W of what is written to it, for any W (a number is
 * one character, 1000 + n), and of what is expected */
static unsigned nx, np, W; static int ch, mch; static _Bool badout;
static void put(int c) { if (np == W) ch = c; np++; VH_SAY(if (c < 1000) printf("%c", c); else printf("%d", c - 1000);) }
static int vh_fputc(int c, FILE *f) { if (f != stderr) badout = 1; put(c & 0xff); return c & 0xff; }
static int vh_fputs(const char *s, FILE *f) { if (f != stderr) badout = 1; for (; *s; s++) put(*s & 0xff); return 1; }
static int vh_vfprintf(FILE *f, const char *fmt, va_list ap) {
	if (f != stderr) badout = 1;
	for (int i = 0; fmt[i]; i++) {
		if (fmt[i] != '%') { put(fmt[i] & 0xff); continue; }
		i++;
		if (fmt[i] == 's') vh_fputs(va_arg(ap, const char *), f);
		else if (fmt[i] == 'c') put(va_arg(ap, int) & 0xff);
		else if (fmt[i] == 'u' || fmt[i] == 'd') put(1000 + va_arg(ap, int));
		else if (fmt[i] == '%') put('%');
		else ASSERT(0, "format known to the harness");
	}
	return 1;
}
static int vh_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vh_vfprintf(f, fmt, ap); va_end(ap); return r; }
#if VH_M == 1
static void want1(int c) { if (nx == W) mch = c; nx++; }
static void want(const char *s) { for (; *s; s++) want1(*s); }
#endif
static void vh_free(void *p) { }
#include "vh_printf.h"
#define fprintf VH_FPRINTF
#define vfprintf vh_vfprintf
#define fputc vh_fputc
#define putc vh_fputc
#define fputs vh_fputs
#define fflush(f) 0
#define free vh_free
#include "slist.c"
#include "error.c"
#undef free
#undef fprintf
#undef vfprintf
#undef fputc
#undef putc
#undef fputs
static int rank(int t) { return t == error_type_inconsistent ? error_type_out_of_range : t == error_type_out_of_range ? error_type_inconsistent : t; }
static struct prog pr; static struct prog_ctx cx; static struct slist st;
void vh_main(void) {
	nmsg = 0; nx = np = 0; badout = 0; ch = mch = -1; W = vh_range(0, 127);
	asm6809_options = (struct asm6809_options){0};
	prog_ctx_stack = NULL;
	error_clear_all();
	asm6809_options.verbosity = vh_range(-1, 1);
	prog_ctx_stack = NULL;
#if VH_M == 0
	int l0 = vh_range(error_type_none, error_type_fatal), t = vh_range(error_type_none, error_type_fatal);
	error_level = l0;
	if (vh_flag()) error(t, NULL); else error(t, "x");
	CHECK("level: the worst so far, an inconsistency outranking values out of range", (int)error_level == (rank(t) > rank(l0) ? t : l0));
	COVER("level");
	error_clear_all();
	CHECK("clear: nothing left", error_level == error_type_none);
	unsigned n0 = np;
	error_print_list();
	CHECK("clear: nothing printed later", np == n0);
#else
	unsigned n = vh_range(0, NE);
	int t[NE]; _Bool in[NE]; unsigned line[NE]; int lvl = 0;
	pr = (struct prog){0}; pr.name = "F";
	st = (struct slist){0}; st.data = &cx;
	cx = (struct prog_ctx){0}; cx.prog = &pr;
	error_level = error_type_none;
	for (unsigned i = 0; i < NE; i++) if (i < n) {
		t[i] = vh_range(error_type_none, error_type_fatal); in[i] = vh_flag(); line[i] = vh_range(0, 1000);
		cx.line_number = line[i];
		prog_ctx_stack = in[i] ? &st : NULL;
		error(t[i], "x");
		if (rank(t[i]) > rank(lvl)) lvl = t[i];
	}
	for (unsigned i = 0; i < NE; i++) if (i < n) {
		_Bool shown = lvl >= error_type_inconsistent ? t[i] >= lvl : t[i] >= error_type_illegal - asm6809_options.verbosity;
		if (t[i] == error_type_none || !shown) continue;
		want(t[i] == error_type_illegal || t[i] == error_type_inefficient ? "warning: " : t[i] == error_type_syntax ? "syntax error: " : "error: ");
		if (in[i]) {
			want("F:");
			if (line[i]) { want1(1000 + line[i]); want(":"); }
			want(" ");
		}
		want(msg[i]); want("\n");
	}
	error_print_list();
	CHECK("print: every error of the severity that decided and no other, in order, with where it was found", !badout && np == nx && ch == mch);
	CHECK("print: cleared", error_level == error_type_none);
	error_print_list();
	CHECK("print: once", np == nx && !badout);
	if (n == NE) COVER("full");
#endif
}
