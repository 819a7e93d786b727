/* C23: what each option of the manual does, alone and after any other one.
 * Numbers by contract of strtol(): any value, if read whole and in their base.
 * @function main simple_parse_int parse_setdp define_symbol tidy_up_and_exit
 * @callees getopt_long strtol symbol_set symbol_get symbol_force_set node_new_int node_free opcode_init assemble_prog section_set output_binary listing_print prog_print_exports prog_print_symbols
 * @props C23
 * @variant set -DVH_M=0
 * @variant passes -DVH_M=1
 * @variant exec -DVH_M=2
 * @variant define -DVH_M=3
 * @variant setdp -DVH_M=4
 * @variant stop -DVH_M=5
 * @exact-bounded
 * @unwind 50
 * @opts --pointer-check
 */
#include "vh.h"
#if defined(VH_CBMC) && !defined(VH_BOUNDED)
static void vh_pass(unsigned *pass);
# define VERIFY_LOOP_pass vh_pass(&pass)
#endif
#define VH_OPTIONS "vh_options.h"
#include "vh_main.h"
static struct { int fmt, isa, dp, verb, badarg, stop, status; int64_t maxp; const char *out; int ex; int defs, defarg[2], deffix[2]; } X;
#if defined(VH_CBMC) && !defined(VH_BOUNDED)
static int arrival;
static void vh_pass(unsigned *pass) {
#if VH_M == 1
	if (arrival++ == 0) {
		*pass = vh_range(0, X.maxp - 1);
		M.sections = M.finishes = *pass; M.bad = 1;
		return;
	}
	ASSERT(M.finishes < (unsigned)X.maxp, "passes: not more than asked for");
	ASSUME(0);
#endif
}
#endif
static _Bool number(int a) { return A[a].kind < K_NEG; }
static void finished(int s) {
	if (X.stop) {
		CHECK("options: help and version succeed, unknown options fail", s == X.status);
		CHECK("options: and nothing is assembled", M.files + M.sections + M.outputs + M.opened == 0);
#if VH_M == 5
		if (X.status) COVER("unknown");
		else COVER("help");
#endif
		return;
	}
	if (X.badarg) {
		CHECK("options: values that are none are refused", s == 1 && R.printed == error_type_fatal);
		CHECK("options: and nothing is assembled then", M.files + M.sections + M.outputs + M.opened == 0);
#if VH_M == 1 || VH_M == 4
		COVER("refused");
#endif
		return;
	}
	CHECK("isa: as asked for, 6809 by default", M.isa == (X.isa ? asm6809_isa_6309 : asm6809_isa_6809) && M.inits == 2);
	CHECK("setdp: as asked for, undefined by default", M.dp == X.dp);
	CHECK("verbosity: as asked for", X.verb == 0 ? M.verb == 0 : X.verb > 0 ? M.verb > 0 : M.verb < 0);
	CHECK("listing: recorded if asked for", M.listreq == (names[1] != NULL));
	CHECK("define: each symbol asked for", M.defs == (unsigned)X.defs && !M.defbad);
	for (int i = 0; i < 2; i++) if (i < X.defs) {
		int a = X.defarg[i];
		CHECK("define: by its name", D[i].key[0] == 'K' && D[i].key[1] == 'A' + a && D[i].key[2] == 0);
		CHECK("define: its value, 1 by default", D[i].v == (X.deffix[i] ? 1 : A[a].v));
#if VH_M == 3
		if (!X.deffix[i]) COVER("value");
		else COVER("default");
#endif
	}
#if VH_M == 1
	CHECK("passes: as many as asked for, 12 by default", M.finishes == (unsigned)X.maxp && s == 1);
	if (X.maxp == 12) COVER("default"); else COVER("passes");
	return;
#endif
	CHECK("passes: one will do", M.finishes == 1);
	_Bool bad = 0;
	if (X.ex >= 0 && !number(X.ex)) {
		bad = !symdef;
		CHECK("exec: a symbol is looked up", symgets >= 1);
	}
	if (X.ex >= 0) {
		if (!bad) CHECK("exec: by number or symbol", M.execs == 1 && ((M.exec ^ (number(X.ex) ? A[X.ex].v : symval)) & 0xffff) == 0);
#if VH_M == 2
		if (number(X.ex)) COVER("exec");
		else if (bad) COVER("no such symbol");
		else COVER("symbol");
#endif
	} else {
		CHECK("exec: not set unless asked for", M.execs == 0);
	}
	CHECK("status: failure only for an undefined symbol", s == bad && (!bad || R.printed == error_type_fatal));
	CHECK("output: in the format asked for", M.outputs == 1 && M.fmt == X.fmt && M.outname == X.out);
	CHECK("files: those asked for", M.listings == (names[1] != NULL) && M.exports == (names[2] != NULL) && M.symbols == (names[3] != NULL));
#if VH_M == 0
	COVER("set");
#endif
}
static char fileargs[2][4] = { "n0", "n1" }, defargs[2][12];
static void text(int a) {
	static const char *pre[K_COUNT] = { "$", "@", "%", "0x", "0b", "", "0", "-", "" };
	char *t = A[a].text; int n = 0;
	for (int k = 0; k < K_COUNT; k++) if (A[a].kind == k) {
		n = 0;
		for (const char *p = pre[k]; *p; p++) t[n++] = *p;
		t[n++] = A[a].d; t[n++] = 'A' + a; t[n] = 0;
	}
	char *d = defargs[a]; d[0] = 'K'; d[1] = 'A' + a; d[2] = '=';
	for (int i = 0; i < 8; i++) d[3 + i] = t[i];
}
static char defkeys[2][4] = { "KA", "KB" };
static _Bool allowed(int i, int w) {
	_Bool plain = w < W_HELP && w != W_PASS && w != W_EXEC && w != W_DEF && w != W_DP;
#if VH_M == 0
	return plain && w != W_DEF1;
#elif VH_M == 1
	return i ? w == W_PASS || w == W_FMT : plain || w == W_PASS;
#elif VH_M == 2
	return i ? w == W_EXEC : plain || w == W_EXEC;
#elif VH_M == 3
	return i ? w == W_DEF || w == W_DEF1 : plain || w == W_DEF;
#elif VH_M == 4
	return i ? w == W_DP : plain || w == W_DP;
#else
	return i ? w >= W_HELP : plain;
#endif
}
void vh_main(void) {
	vh_main_reset();
	vh_clean = 1;
	memset(&X, 0, sizeof X);
	X.dp = -1; X.maxp = 12; X.out = names[0]; X.ex = -1;
	memset(A, 0, sizeof A);
#if defined(VH_CBMC) && !defined(VH_BOUNDED)
	arrival = 0;
#endif
	static const char *nout = "out";
	names[0] = nout; names[1] = names[2] = names[3] = NULL;
	for (int a = 0; a < NA; a++) {
		A[a].kind = vh_range(0, K_COUNT - 1);
		A[a].d = '0' + vh_range(0, 9);
		A[a].v = vh_nd();
		A[a].range = vh_flag();
#if VH_M == 1
		A[a].kind = K_DEC; if (vh_flag()) A[a].kind = K_0X;
		if (A[a].d == '0') A[a].d = '7';
		if (vh_flag()) A[a].v = vh_range(0, 300);
#if !defined(VH_CBMC) || defined(VH_BOUNDED)
		if (A[a].v >= 2 && A[a].v < 256) A[a].v = vh_range(2, 4);
#endif
#endif
		if (A[a].kind == K_NONE) { A[a].d = 'Z'; A[a].v = 0; }
		if (A[a].kind == K_NEG ? A[a].v > 0 : A[a].v < 0) A[a].v = ~A[a].v;
		text(a);
	}
	symdef = vh_flag(); symval = vh_nd(); execname = NULL;
	sc_n = 3; sc_at = 0;
	for (int e = 0; e < NSPEC; e++) if (spec[e].what == W_OUT && spec[e].s) sc_opt[0] = e;
	sc_arg[0] = (char *)nout; X.out = nout;
	for (int i = 0; i < 2; i++) {
		/* one subject at a time, after anything else */
		int n = 0;
		static int may[sizeof spec / sizeof *spec];
		for (int e = 0; e < NSPEC; e++) if (allowed(i, spec[e].what)) may[n++] = e;
		int pick = vh_range(0, n - 1);
		for (int j = 0; j < n; j++) if (pick == j) {
			int e = may[j];
			sc_opt[1 + i] = e;
			int w = spec[e].what;
			char **arg = &sc_arg[1 + i];
			*arg = NULL;
			if (X.stop || X.badarg) continue;
			if (w < W_ISA) X.fmt = w;
			else if (w < W_EXEC) X.isa = w - W_ISA;
			else if (w == W_EXEC) { *arg = A[i].text; X.ex = i; if (!number(i)) execname = A[i].text; else execname = NULL; ASSUME(A[i].kind != K_NEG); }
			else if (w == W_DEF) { *arg = defargs[i]; ASSUME(number(i)); X.defarg[X.defs] = i; X.deffix[X.defs++] = 0; }
			else if (w == W_DEF1) { *arg = defkeys[i]; X.defarg[X.defs] = i; X.deffix[X.defs++] = 1; }
			else if (w == W_DP) {
				*arg = A[i].text;
				if (number(i)) X.dp = A[i].v & 0xff;
				else if (A[i].kind == K_NEG && A[i].v < 0) X.dp = -1;
				else X.badarg = 1;
			}
			else if (w == W_PASS) {
				*arg = A[i].text;
				if (A[i].range || A[i].v < 2 || A[i].v > 255) X.badarg = 1;
				else X.maxp = A[i].v;
			}
			else if (w == W_OUT) { *arg = fileargs[i]; X.out = fileargs[i]; }
			else if (w == W_LST) { *arg = fileargs[i]; names[1] = fileargs[i]; }
			else if (w == W_EXP) { *arg = fileargs[i]; names[2] = fileargs[i]; }
			else if (w == W_SYM) { *arg = fileargs[i]; names[3] = fileargs[i]; }
			else if (w == W_Q) X.verb = -1;
			else if (w == W_V) X.verb = 1;
			else { X.stop = 1; X.status = w == W_BAD; }
		}
	}
	names[0] = X.out;
#if VH_M == 1
	vh_clean = 2;
#endif
	vh_run(1);
}
