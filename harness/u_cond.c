/* C16: conditional assembly.
 *
 * step: the loop over lines of assemble_prog() under a contract.  Invariant:
 * the list of conditions, innermost first, represents nested structures, each
 * waiting (no branch selected yet), active or done, with or without ELSE seen,
 * at most one of which (and then everything inside it) is excluded.  Initially
 * it is empty; one arbitrary line from an arbitrary such state (any depth)
 * changes it as documented, and has an effect exactly if everything is active.
 * end: the same state reaching the end of the program.
 * Whole programs (bounded) stand in where that fails, and natively.
 * @function assemble_prog verify_num_args have_int_required have_int_optional set_label slist_prepend slist_remove slist_free
 * @callees eval_node eval_string eval_int prog_ctx_next_line prog_ctx_end dict_lookup listing_add_line symbol_set section_emit_uint8 error
 * @props C16 C21
 * @variant if -DVH_M=0 -DVH_D=0
 * @variant elsif -DVH_M=0 -DVH_D=1
 * @variant else -DVH_M=0 -DVH_D=2
 * @variant endif -DVH_M=0 -DVH_D=3
 * @variant line -DVH_M=0 -DVH_D=4
 * @variant unknown -DVH_M=0 -DVH_D=5
 * @variant end -DVH_M=1
 * @exact-bounded
 * @unwind 66
 * @bounded-unwind 600
 * @opts --pointer-check
 */
#include "vh.h"
#include "slist.h"
#if !defined(VH_BOUNDED) && defined(VH_CBMC)
static void vh_step(struct slist **list, struct slist **excl, long s_if, long s_done, long s_else);
# define VERIFY_LOOP_prog vh_step(&cond_list, &cond_excluded, cond_state_if, cond_state_if_done, cond_state_else)
#endif
#ifndef VH_D
# define VH_D 9
#endif
#define VH_OWN_EVAL
#define VH_OWN_PROG
#include "vh_asm.h"
/* evaluation of a condition */
static unsigned vh_eval; static _Bool vh_ignored;
static struct node *vh_cargs;
struct node *eval_node(struct node *n) {
	if (n && n == vh_cargs) { vh_eval++; vh_ignored = symbol_ignore_undefined; }
	return node_ref(n);
}
struct node *eval_string(struct node *n) { return n && n->type == node_type_string ? node_ref(n) : NULL; }
_Bool symbol_ignore_undefined;
static unsigned vh_listed, vh_bare, vh_sets, vh_expand, vh_unknown;
void listing_add_line(int pc, int n, struct section_span const *sp, char const *t) { vh_listed++; if (n <= 0 || !sp) vh_bare++; }
void symbol_set(const char *k, struct node *v, _Bool c, unsigned p) { vh_sets++; }
void symbol_local_set(struct dict *d, intmax_t k, unsigned l, struct node *v, unsigned p) { vh_sets++; }
struct opcode const *opcode_by_name(const char *n) { return NULL; }
struct prog *prog_macro_by_name(const char *n) { vh_unknown++; return NULL; }
static struct prog vh_prog;
static struct prog_ctx vh_ctx;
static struct prog_line vh_line[16];
static unsigned vh_lines, vh_at, vh_ctxs;
struct prog_ctx *prog_ctx_new(struct prog *p) { vh_ctxs++; vh_at = 0; return &vh_ctx; }
void prog_ctx_free(struct prog_ctx *c) { vh_ctxs--; }
_Bool prog_ctx_end(struct prog_ctx *c) { return vh_at >= vh_lines; }
struct prog_line *prog_ctx_next_line(struct prog_ctx *c) { ASSERT(vh_at < vh_lines, "prog_ctx_next_line: there is one"); return &vh_line[vh_at++]; }

#include "slist.c"
#define free vh_ffree
static void vh_ffree(void *p) { }
#include "assemble.c"
#undef free

static const char *const vh_names[] = { "iF", "elsif", "ELSE", "endif", "fcb", "froboz" };
static struct node opn[16], argn[16], cval[16], lab;
static struct node *cvp[16][2];
/* line i: directive d, nargs arguments, the first an int (t==0), float, empty or undefined */
static int64_t cond[16];
static int vh_bits = -1; /* truth of the conditions, if given */
static void line(int i, int d, int nargs, int t) {
	opn[i] = (struct node){ .type = node_type_string, .ref = 9, .attr = node_attr_none, .data = { .as_string = (char *)vh_names[d] } };
	cond[i] = 0;
	cvp[i][0] = cvp[i][1] = &cval[i];
	switch (t) {
	case 0: cval[i] = (struct node){ .type = node_type_int, .ref = 9, .attr = node_attr_none, .data = { .as_int = cond[i] = vh_bits < 0 ? vh_nd() : d > 1 ? i : (vh_bits >> i) & 1 ? i & 1 ? INT64_MIN : 1LL << 32 : 0 } }; break;
	case 1: {
		union { int64_t i; double d; } u; u.i = vh_nd(); ASSUME(u.d > -9e18 && u.d < 9e18);
		cval[i] = (struct node){ .type = node_type_float, .ref = 9, .attr = node_attr_none, .data = { .as_float = u.d } };
		cond[i] = (int64_t)u.d;
		break; }
	case 2: cval[i] = (struct node){ .type = node_type_empty, .ref = 9, .attr = node_attr_none, .data = { .as_int = 0 } }; break;
	default: cvp[i][0] = NULL;
	}
	argn[i] = (struct node){ .type = node_type_array, .ref = 9, .attr = node_attr_none, .data = { .as_array = { .nargs = nargs, .args = cvp[i] } } };
	lab = (struct node){ .type = node_type_string, .ref = 99, .attr = node_attr_none, .data = { .as_string = "lab" } };
	vh_line[i] = (struct prog_line){ .ref = 1, .label = d >= 4 ? &lab : NULL, .opcode = &opn[i], .args = nargs ? &argn[i] : NULL, .text = "" };
}
static void reset(void) {
	vh_asm_init();
	assemble_init();
	vh_lines = vh_at = vh_ctxs = vh_eval = vh_sets = vh_unknown = vh_expand = vh_listed = vh_bare = 0;
	vh_cargs = NULL; symbol_ignore_undefined = 0; vh_ignored = 0;
	defining_macro_level = 0; defining_macro_ctx = NULL; prog_depth = 0;
}

/* Documented meaning. */
enum { WAIT, ACT, DONE };
struct level { _Bool outer; int st; _Bool els; }; /* outer: everything around is active */

#if !defined(VH_BOUNDED) && defined(VH_CBMC)
/* --- arbitrary state ------------------------------------------------------- */
static struct slist *N[3], *deep; static int depth; /* 3: three or more */
static int excl; /* index of the excluding element, -1 none, 3 deeper */
static intptr_t sIF, sDONE, sELSE, dat[3];
static int arrival, want_depth; static _Bool stepping;
static void check_after(struct slist *list, struct slist *exc);
static void vh_step(struct slist **list, struct slist **exc, long a, long b, long c) {
	if (arrival++ > 0) {
		if (stepping) { check_after(*list, *exc); ASSUME(0); }
		return;
	}
	ASSERT(*list == NULL && *exc == NULL, "initially no condition");
	sIF = a; sDONE = b; sELSE = c;
	static char opaque[2];
	deep = (struct slist *)opaque;
	for (int i = 0; i < 3; i++) N[i] = xmalloc(sizeof(struct slist));
	for (int i = 0; i < 3; i++) {
		int s = vh_range(0, 2);
		_Bool may_wait = excl == i, dead = excl > i;
		if (dead) ASSUME(s == 1);
		if (!may_wait) ASSUME(s != 0);
		dat[i] = s == 0 ? sIF : s == 1 ? sDONE : sELSE;
		N[i]->data = (void *)dat[i];
		N[i]->next = i + 1 < depth && i < 2 ? N[i + 1] : NULL;
	}
	if (depth == 3) N[2]->next = deep;
	*list = depth ? N[0] : NULL;
	*exc = excl < 0 ? NULL : excl == 3 ? deep : N[excl];
}
static struct level top(void) {
	struct level l;
	l.outer = excl <= 0;
	l.els = dat[0] == sELSE;
	l.st = excl == 0 ? (dat[0] == sIF ? WAIT : DONE) : ACT;
	return l;
}
static int d, nargs, atype; static int64_t cv;
static _Bool is(struct slist *n, struct slist *exc, struct level w) {
	if (n == exc) return w.outer && (w.st == WAIT ? (intptr_t)n->data == sIF && !w.els : w.st == DONE && ((intptr_t)n->data == (w.els ? sELSE : sDONE)));
	return w.st == ACT && (intptr_t)n->data == (w.els ? sELSE : sDONE);
}
static void check_after(struct slist *list, struct slist *exc) {
	struct level l = top();
	_Bool alive = excl < 0; /* everything active before this line */
	_Bool effect = E.n || E.skips || vh_sets || vh_unknown;
	_Bool bad = 0, eval = 0;
	struct slist *h = depth ? N[0] : NULL, *x = excl < 0 ? NULL : excl == 3 ? deep : N[excl];
	/* levels around the innermost are never changed */
	if (depth > 1) CHECK("conditional: enclosing structures unchanged", (intptr_t)N[1]->data == dat[1] && (depth < 3 || ((intptr_t)N[2]->data == dat[2] && N[2]->next == deep && N[1]->next == N[2])));
	switch (d) {
	case 0:
		if (alive) {
			eval = 1;
			if (nargs != 1) { bad = 1; break; }
			struct level w = { 1, cv ? ACT : WAIT, 0 };
			CHECK("IF: nests", list && list != h && list->next == h);
			CHECK("IF: selected exactly if non-zero", is(list, exc, w));
			CHECK("IF: enclosing exclusion", exc == NULL || exc == list);
#if VH_M == 0 && VH_D == 0
			if (nargs == 1) COVER("if");
#endif
		} else {
			CHECK("IF: nests where unselected", list && list != h && list->next == h && exc == x && (intptr_t)list->data == sDONE);
		}
		break;
	case 1:
		CHECK("ELSIF: does not nest", list == h);
		if (depth == 0) { bad = 1; break; }
		if (!l.outer) { CHECK("ELSIF: nothing changes inside an unselected branch", exc == x && (intptr_t)h->data == dat[0]); break; }
		if (l.els) { bad = 1; break; }
		if (l.st == WAIT) {
			eval = 1;
			if (nargs != 1) { bad = 1; break; }
			l.st = cv ? ACT : WAIT;
			CHECK("ELSIF: selected exactly if non-zero", is(h, exc, l));
		} else {
			l.st = DONE;
			CHECK("ELSIF: not selected after a selected branch", is(h, exc, l));
#if VH_M == 0 && VH_D == 1
			if (depth == 2) COVER("elsif");
#endif
		}
		CHECK("ELSIF: enclosing exclusion", exc == NULL || exc == h);
		break;
	case 2:
		CHECK("ELSE: does not nest", list == h);
		if (depth == 0) { bad = 1; break; }
		if (!l.outer) { CHECK("ELSE: nothing changes inside an unselected branch", exc == x && (intptr_t)h->data == dat[0]); break; }
		if (l.els) { bad = 1; break; }
		l.els = 1;
		if (l.st == WAIT) {
			CHECK("ELSE: selected if no branch was", exc == NULL && (intptr_t)h->data == sELSE);
		} else {
			CHECK("ELSE: not selected after a selected branch", exc == h && (intptr_t)h->data == sELSE);
#if VH_M == 0 && VH_D == 2
			if (depth == 2) COVER("else");
#endif
		}
		break;
	case 3:
		if (depth == 0) { bad = 1; CHECK("ENDIF: nothing to end", list == NULL && exc == NULL); break; }
		CHECK("ENDIF: ends the innermost", list == (depth > 1 ? N[1] : NULL));
		CHECK("ENDIF: what was excluded by it is included again, and nothing else", exc == (excl == 0 ? NULL : x));
#if VH_M == 0 && VH_D == 3
		if (depth == 3) COVER("endif");
#endif
		break;
	default:
		CHECK("line: no change of conditions", list == h && exc == x);
		if (depth) CHECK("line: no change of condition", (intptr_t)h->data == dat[0]);
		CHECK("line: assembled exactly if everything is selected", effect == alive);
		CHECK("line: arguments evaluated exactly if everything is selected", vh_eval == alive);
		if (d == 4) CHECK("line: no error", !VH_SYNTAX);
		if (d == 5) bad = alive;
#if VH_M == 0 && VH_D == 4
		if (depth == 2) COVER("line");
#elif VH_M == 0 && VH_D == 5
		if (depth == 2) COVER("unknown");
#endif
	}
	if (d < 4) {
		CHECK("conditional: nothing is assembled", !effect);
		CHECK("conditional: condition evaluated only where it matters", vh_eval == (eval && nargs) && (!vh_eval || vh_ignored));
		CHECK("conditional: undefined symbols are errors again afterwards", !symbol_ignore_undefined);
	}
	if (d != 5 || !alive) CHECK("listing: the line appears once", vh_listed == 1 && (vh_bare == 1 || (d == 4 && alive)));
	CHECK("conditional: unbalanced, repeated or wrong directives are errors, others are not", VH_SYNTAX == bad);
}
static void step(int dd, int dep, int e, int na, int t) {
	reset();
	d = dd; depth = dep; excl = e; nargs = na; atype = t;
	line(0, d, na, t);
	line(1, 4, 1, 0);
	cv = cond[0];
	if (d == 4) vh_cargs = &argn[0];
	else if (na) vh_cargs = &argn[0];
	arrival = 0; stepping = 1;
	vh_lines = 2;
	if (dep && e >= 0) ASSUME(e < dep || e == 3);
	assemble_prog(&vh_prog, 1);
	ASSERT(0, "the loop goes on to the next line");
}
/* paths end after a step: one scenario is chosen, all are covered */
static void anystep(int dd) {
	int pick = vh_range(0, 99), k = 0;
	for (int dep = 0; dep <= 3; dep++)
		for (int e = -1; e <= (dep < 3 ? dep - 1 : 3); e++)
			for (int t = 0; t < (dd <= 1 ? 4 : 1); t++)
				if (pick == k++) { step(dd, dep, e, dd == 2 || dd == 3 ? 0 : 1, t); return; }
	if (dd <= 1) {
		for (int dep = 0; dep <= 2; dep++) for (int e = -1; e < dep; e++)
			if (pick == k++) { step(dd, dep, e, 2, 0); return; }
		for (int dep = 0; dep <= 2; dep++) for (int e = -1; e < dep; e++)
			if (pick == k++) { step(dd, dep, e, 0, 0); return; }
	}
	ASSUME(0);
}
static void end(int dep, int e) {
	reset();
	depth = dep; excl = e; d = 4;
	line(0, 4, 1, 0);
	arrival = 0; stepping = 0;
	vh_lines = 1;
	assemble_prog(&vh_prog, 1);
	CHECK("end: IF without ENDIF is an error", VH_SYNTAX == (dep > 0));
	CHECK("end: back at the enclosing depth", prog_depth == 0 && vh_ctxs == 0);
#if VH_M == 1
	COVER("end");
#endif
}
#endif
/* --- whole programs --------------------------------------------------------- */
/* I IF, S ELSIF, L ELSE, N ENDIF, . a line */
static void seq(const char *p) {
	reset();
	unsigned n = 0;
	for (; p[n]; n++) {
		int k = p[n] == 'I' ? 0 : p[n] == 'S' ? 1 : p[n] == 'L' ? 2 : p[n] == 'N' ? 3 : 4;
		line(n, k, k == 2 || k == 3 ? 0 : 1, 0);
	}
	vh_lines = n;
	/* meaning */
	struct level st[16]; int sp = 0; _Bool bad = 0; unsigned lines = 0; uint8_t last = 0; 
	for (unsigned i = 0; i < n; i++) {
		_Bool on = sp == 0 || (st[sp - 1].outer && st[sp - 1].st == ACT);
		struct level *t = sp ? &st[sp - 1] : NULL;
		switch (p[i]) {
		case 'I': st[sp].outer = on; st[sp].st = cond[i] ? ACT : WAIT; st[sp].els = 0; sp++; break;
		case 'S': if (!t) bad = 1; else if (t->outer) { if (t->els) bad = 1; else if (t->st == WAIT) { if (cond[i]) t->st = ACT; } else t->st = DONE; } break;
		case 'L': if (!t) bad = 1; else if (t->outer) { if (t->els) bad = 1; else { t->els = 1; t->st = t->st == WAIT ? ACT : DONE; } } break;
		case 'N': if (!t) bad = 1; else sp--; break;
		default: if (on) { if (lines == E.w) last = cond[i]; lines++; } break;
		}
	}
	if (sp) bad = 1;
	assemble_prog(&vh_prog, 1);
	CHECK("program: errors exactly if unbalanced or repeated", VH_SYNTAX == bad);
	if (!bad) {
		CHECK("program: exactly the selected lines are assembled", E.n == lines && vh_sets == lines);
		if (E.w < lines) CHECK("program: in order", E.v == last);
	}
}
static const char *const progs[] = {
#if !defined(VH_CBMC) || VH_M == 1
	"I.N.", "I.N", "I", "N", ".", "",
#endif
#if !defined(VH_CBMC) || VH_D == 0
	"I.L.N.", "I.I.N.N.",
#endif
#if !defined(VH_CBMC) || VH_D == 1
	"I.S.S.N.", "S.", "I.L.S.N",
#endif
#if !defined(VH_CBMC) || VH_D == 2
	"I.S.L.N.", "L.", "I.L.L.N", "I.S.L.L.N",
#endif
#if !defined(VH_CBMC) || VH_D == 3
	"III.N.NN.", "I.NN", "I.N.L.N",
#endif
#if !defined(VH_CBMC) || VH_D == 4
	"I.I.L.N.L.N",
#endif
#if !defined(VH_CBMC) || VH_D == 5
	"I.S.I.L.N.L.N", 
#endif
};
void vh_main(void) {
#if !defined(VH_CBMC)
	if (!vh_random()) for (unsigned i = 0; i < sizeof(progs) / sizeof(*progs); i++) seq(progs[i]);
	else {
		char p[16]; int n = vh_range(0, 15);
		for (int i = 0; i < n; i++) p[i] = "IISLNN.."[vh_range(0, 7)];
		p[n] = 0;
		seq(p);
	}
#elif defined(VH_BOUNDED)
	for (unsigned i = 0; i < sizeof(progs) / sizeof(*progs); i++) {
		int m = 0; /* which lines have conditions */
		for (int k = 0; progs[i][k]; k++) if (progs[i][k] == 'I' || progs[i][k] == 'S') m |= 1 << k;
		for (vh_bits = 0; vh_bits <= m; vh_bits++) if ((vh_bits & ~m) == 0) seq(progs[i]);
	}
	COVER("programs");
#elif VH_M == 0
	anystep(VH_D);
#else
	for (int dep = 0; dep < 3; dep++) for (int e = -1; e < dep; e++) end(dep, e);
#endif
}
