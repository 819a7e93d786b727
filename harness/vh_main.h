/* asm6809.c: main() with every other module by contract.  exit() ends the run. */
#include "vh.h"
#include <errno.h>
#include <getopt.h>
#include <setjmp.h>
struct vh_ghost G;
#define VH_NO_EMIT_CONTRACT
#define VH_NO_ERROR_CONTRACT
#include "vh_emit.h"
#include "asm6809.h"
#include "node.h"
#include "slist.h"
#include "symbol.h"
#include "eval.h"
#include "program.h"
#include "listing.h"
#include "output.h"
#include "assemble.h"
#include "opcode.h"

/* --- errors, by contract (u_error) ------------------------------------------- */
enum error_type error_level;
static int rank(int t) { return t == error_type_inconsistent ? error_type_out_of_range : t == error_type_out_of_range ? error_type_inconsistent : t; }
static int worse(int a, int b) { return rank(a) >= rank(b) ? a : b; }
static struct { unsigned fatal, prints; int printed; _Bool failing; } R;
void error(enum error_type t, const char *f, ...) {
	VH_SAY(printf("  error(type %d): %s\n", t, f);)
	error_level = worse(error_level, t);
	if (t == error_type_fatal) R.fatal++;
}
void error_clear_all(void) { error_level = error_type_none; }
void error_print_list(void) { R.prints++; R.printed = worse(R.printed, error_level); error_level = error_type_none; }
static void raise(int t) { if (t > 0) error_level = worse(error_level, t); }
static int anylevel(void) { return vh_range(error_type_none, error_type_fatal); }

/* --- what happened ------------------------------------------------------------- */
static struct {
	unsigned files, passes, sections, finishes, assembled;
	unsigned outputs; int fmt; const char *outname;
	unsigned listings, exports, symbols;
	unsigned execs; int64_t exec; _Bool execnode;
	unsigned defs; _Bool defbad;
	unsigned inits; int isa, dp, verb; _Bool listreq;
	_Bool bad; /* something out of order */
	int final; /* level of the last pass */
	unsigned pass;
	_Bool outerr; /* something went wrong writing files */
	unsigned opened, closed;
} M;
static struct { char key[4]; int64_t v; } D[2];
static int passlevel; /* level raised in the current pass */
/* --- modules ------------------------------------------------------------------- */
static char *fname[2] = { "f0", "f1" };
static struct prog progs[2];
static int fileerr;
struct prog *prog_new_file(const char *n) {
	ASSERT(M.files < 2 && n == fname[M.files] && M.inits == 2, "files: each once, in order");
	if (M.files == 0) raise(fileerr);
	return &progs[M.files++];
}
void opcode_init(void) { M.inits++; M.isa = asm6809_options.isa; }
void assemble_init(void) { M.inits++; }
void opcode_free_all(void) { } void assemble_free_all(void) { } void section_free_all(void) { } void symbol_free_all(void) { } void prog_free_all(void) { }
void listing_free_all(void) { }
void section_set(const char *n, unsigned pass) {
	ASSERT(n[0] == 'C' && n[1] == 'O' && n[4] == 0, "pass: starts in section CODE");
	ASSERT(error_level == error_type_none, "pass: starts without errors");
	ASSERT(!M.sections || !M.finishes || M.bad || M.final == error_type_inconsistent, "pass: another only if the last was merely inconsistent");
	M.bad = 0;
	M.sections++; M.assembled = 0; M.pass = pass;
	M.dp = asm6809_options.setdp; M.verb = asm6809_options.verbosity; M.listreq = asm6809_options.listing_required;
	passlevel = 0;
}
static int vh_clean; /* 1: without errors, 2: always inconsistent */
static int lev(void) {
	if (vh_clean) return vh_clean == 1 ? 0 : error_type_inconsistent;
#ifdef VH_CBMC
	return anylevel();
#else
	return vh_range(0, 2) ? vh_range(0, 3) : anylevel();
#endif
}
void assemble_prog(struct prog *p, unsigned pass) {
	ASSERT(M.assembled < 2 && p == &progs[M.assembled] && pass == M.pass, "pass: each file once, in order");
	M.assembled++;
	int t = lev();
	passlevel = worse(passlevel, t);
	raise(t);
}
void section_finish_pass(void) {
	ASSERT(M.assembled == M.files, "pass: all files, then the check of sections");
	M.finishes++;
	int t = !vh_clean && vh_flag() ? error_type_inconsistent : 0;
	passlevel = worse(passlevel, t);
	raise(t);
	M.final = passlevel;
}
/* --- files ---------------------------------------------------------------------- */
static char fobj[4];
static const char *names[4] = { "out", "lst", "exp", "sym" };
static _Bool openfail[4], wfail[4], cfail[4], isopen[4];
static int vh_fno(FILE *f) { int i = (char *)f - fobj; ASSERT(i >= 1 && i < 4 && isopen[i], "file is open"); return i; }
FILE *vh_fopen(const char *n, const char *m) {
	int i = n == names[1] ? 1 : n == names[2] ? 2 : n == names[3] ? 3 : 0;
	ASSERT(i && m[0] == 'w', "fopen: of a file asked for");
	M.opened++;
	if (openfail[i]) { M.outerr = 1; return NULL; }
	isopen[i] = 1;
	return (FILE *)(fobj + i);
}
int vh_ferror(FILE *f) { int i = vh_fno(f); return wfail[i]; }
int vh_fclose(FILE *f) { int i = vh_fno(f); isopen[i] = 0; M.closed++; if (wfail[i] || cfail[i]) M.outerr = 1; return cfail[i] ? EOF : 0; }
void listing_print(FILE *f) { ASSERT(vh_fno(f) == 1 && M.outputs == 0, "listing: to its file, before output"); M.listings++; }
static int experr, symerr, outerr;
void prog_print_exports(FILE *f) { ASSERT(vh_fno(f) == 2, "exports: to their file"); M.exports++; raise(experr); }
void prog_print_symbols(FILE *f) { ASSERT(vh_fno(f) == 3, "symbols: to their file"); M.symbols++; raise(symerr); }
static void out(int fmt, const char *n) { ASSERT(M.outputs++ == 0, "one output"); M.fmt = fmt; M.outname = n; raise(outerr); }
void output_binary(const char *n) { out(0, n); }
void output_dragondos(const char *n) { out(1, n); }
void output_coco(const char *n) { out(2, n); }
void output_motorola_srec(const char *n) { out(3, n); }
void output_intel_hex(const char *n) { out(4, n); }
/* --- symbols -------------------------------------------------------------------- */
static struct node pool[12]; static unsigned npool;
struct node *node_new_int(int64_t v) {
	ASSERT(npool < 12, "harness: pool");
	pool[npool] = (struct node){ .type = node_type_int, .ref = 1, .attr = node_attr_none, .data = { .as_int = v } };
	return &pool[npool++];
}
void node_free(struct node *n) { if (n) { ASSERT(n->ref >= 1, "node_free: referenced"); n->ref--; } }
static _Bool symdef; static int64_t symval; static unsigned symgets;
static char *execname = NULL;
struct node *symbol_get(const char *n) { ASSERT(execname && n[0] == execname[0] && n[1] == execname[1] && n[2] == execname[2], "exec: the symbol named"); symgets++; return symdef ? node_new_int(symval) : NULL; }
struct node *eval_int_free(struct node *n) { return n; }
struct node *eval_int(struct node *n) { if (n) n->ref++; return n; }
_Bool symbol_force_set(const char *n, struct node *v, _Bool c, unsigned p) {
	ASSERT(n[0] == '.' && n[1] == 'e' && n[5] == 0 && v && v->ref >= 1, "exec: .exec set");
	ASSERT(M.outputs == 0, "exec: before output");
	M.execs++; M.exec = v->data.as_int; return 1;
}
void symbol_set(const char *n, struct node *v, _Bool c, unsigned p) {
	ASSERT(M.defs < 2, "define: once per option");
	if (c || p != 0 || M.sections) M.defbad = 1;
	for (int i = 0; i < 4; i++) { D[M.defs].key[i] = n[i]; if (!n[i]) break; }
	ASSERT(v && v->ref >= 1, "define: a live value");
	D[M.defs].v = v->data.as_int;
	if (v->type != node_type_int) M.defbad = 1;
	M.defs++;
}
char *xstrdup(const char *s) {
	char *r = xmalloc(8);
	for (int i = 0; i < 8; i++) { r[i] = s[i]; if (!s[i]) break; ASSERT(i < 7, "harness: short"); }
	return r;
}
#ifdef VH_OPTIONS
# include VH_OPTIONS
#else
long vh_strtol(const char *p, char **end, int base) { ASSERT(0, "no number to read"); return 0; }
char *optarg; int optind;
int getopt_long(int argc, char *const *argv, const char *so, const struct option *lo, int *idx) { optind = 1; return -1; }
#endif
/* --- end --------------------------------------------------------------------------- */
static void finished(int status); /* the postcondition */
static _Bool ended;
#ifdef VH_CBMC
_Noreturn void vh_exit(int s) { ended = 1; finished(s); __CPROVER_assume(0); for (;;); }
#else
static jmp_buf vh_jmp;
_Noreturn void vh_exit(int s) { ended = 1; finished(s); longjmp(vh_jmp, 1); }
#endif
#include "vh_loops.h"
#include "slist.c"
static void vh_nofree(void *p) { }
#define free vh_nofree
#define fopen vh_fopen
#define fclose vh_fclose
#undef ferror
#define ferror vh_ferror
#define strtol vh_strtol
#define strtoll vh_strtol
#define strtoul vh_strtol
#define strtoull vh_strtol
#define exit vh_exit
#undef _GNU_SOURCE
#define main asm_main
#define puts(x) ((void)0)
#include "asm6809.c"
#undef main
#undef exit
#undef free
static void vh_main_reset(void) {
	G = (struct vh_ghost){0};
	memset(&M, 0, sizeof M); memset(&R, 0, sizeof R); 
	error_level = 0; npool = 0; optarg = NULL; optind = 0; ended = 0; symgets = 0; passlevel = 0;
	fileerr = experr = symerr = outerr = 0; symdef = 0;
	for (int i = 0; i < 4; i++) openfail[i] = wfail[i] = cfail[i] = isopen[i] = 0;
	/* initial values, as the program is started */
	max_passes = 12; output_format = 0; exec_option = output_filename = exports_filename = symbol_filename = listing_filename = NULL;
	isa = asm6809_isa_6809; max_program_depth = 8; setdp = -1; verbosity = 0; files = NULL;
	asm6809_options = (struct asm6809_options){0};
}
static void vh_run(int nfiles) {
	char *argv[3] = { "asm6809", fname[0], fname[1] };
	static char *av[4];
	av[0] = argv[0]; av[1] = fname[0]; av[2] = fname[1]; av[3] = NULL;
#ifndef VH_CBMC
	if (setjmp(vh_jmp)) return;
#endif
	asm_main(1 + nfiles, av);
	ASSERT(0, "ends with exit()");
}
