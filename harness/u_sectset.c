/* C17: selecting sections, and the check at the end of a pass.  Any history
 * leaves sections with some addresses; each operation is verified from every
 * such state.
 * @function section_set section_new section_finish_pass verify_section
 * @callees dict_lookup dict_insert dict_foreach slist_free_full symbol_local_table_new error
 * @props C17
 * @variant again -DVH_M=0
 * @variant first -DVH_M=1
 * @variant new -DVH_M=2
 * @variant finish -DVH_M=3
 * @unwind 8
 * @opts --pointer-check
 */
#include "vh.h"
struct vh_ghost G;
#define VH_NO_EMIT_CONTRACT
#define VH_NO_ERROR_CONTRACT
#define cur_section cur_section_unused
#include "vh_emit.h"
#undef cur_section
#include "asm6809.h"
#include "symbol.h"
#include "vh_loops.h"
struct asm6809_options asm6809_options;
void error(enum error_type t, const char *f, ...) { G.err[t]++; }
void error_abort(const char *f, ...) { ASSERT(0, "no internal error"); ASSUME(0); for (;;); }
static unsigned tables, kept; static char tobj[4];
struct dict *symbol_local_table_new(void) { tables++; return (struct dict *)&tobj[1]; }
#define dict_destroy vh_dict_destroy_any
#include "vh_dict1.h"
#undef dict_destroy
void dict_destroy(struct dict *d) { }
char *xstrdup(const char *s) { char *r = xmalloc(2); r[0] = s[0]; r[1] = 0; return r; }
#include "slist.h"
static struct slist oldspans; static unsigned freedspans;
void slist_free_full(struct slist *l, slist_free_func f) { ASSERT(l == &oldspans && f, "spans of the pass before are released"); freedspans++; }
void slist_free(struct slist *l) { } void slist_free_1(struct slist *l) { }
struct slist *slist_copy(struct slist *l) { return l; } struct slist *slist_sort(struct slist *l, slist_cmp_func f) { return l; }
struct slist *slist_copy_deep(struct slist *l, slist_copy_func f, void *p) { return l; }
struct slist *slist_concat(struct slist *a, struct slist *b) { return a; }
struct slist *slist_append(struct slist *l, void *d) { return l; }
struct slist *dict_get_values(struct dict *d) { return NULL; }
void *xrealloc(void *p, size_t n) { return p; }
static void vh_free(void *p) { }
#define free vh_free
#include "section.c"
#undef free
static struct section A, B; static struct section_span span;
static void any(struct section *s) {
	*s = (struct section){0};
	s->pass = vh_range(0, UINT32_MAX); s->pc = vh_range(INT32_MIN, INT32_MAX); s->put = vh_range(0, UINT32_MAX);
	s->last_pc = vh_range(INT32_MIN, INT32_MAX); s->last_put = vh_range(0, UINT32_MAX); s->dp = vh_range(0, UINT32_MAX);
	s->line_number = vh_range(0, UINT32_MAX); s->local_labels = (struct dict *)&tobj[0];
}
static _Bool same(struct section *a, struct section *b) {
	return a->spans == b->spans && a->span == b->span && a->local_labels == b->local_labels && a->pass == b->pass && a->line_number == b->line_number &&
		a->pc == b->pc && a->put == b->put && a->dp == b->dp && a->last_pc == b->last_pc && a->last_put == b->last_put;
}
void vh_main(void) {
	G = (struct vh_ghost){0};
	asm6809_options = (struct asm6809_options){0};
	asm6809_options.setdp = vh_range(-1, 255);
	vh_d[0].k = vh_d[1].k = NULL; vh_dnew = 0; tables = freedspans = 0; sections = NULL; cur_section = NULL;
	any(&A); any(&B);
	_Bool any_sections = VH_M != 2 || vh_flag();
	if (any_sections) {
		sections = dict_new_full(dict_str_hash, dict_str_equal, NULL, NULL);
		vh_kf = NULL; vh_vf = NULL;
		if (VH_M != 2) { vh_d[0].k = "k"; vh_d[0].v = &A; }
		vh_d[1].k = "o"; vh_d[1].v = &B;
		/* the current section: this one, another, or none yet */
		cur_section = VH_M != 2 && vh_flag() ? &A : vh_flag() ? &B : NULL;
	}
#if VH_M < 3
	unsigned pass = vh_range(0, 255);
# if VH_M == 0
	A.pass = pass;
# else
	ASSUME(A.pass != pass);
# endif
	if (vh_flag()) { A.spans = &oldspans; A.span = &span; }
	struct section A0 = A, B0 = B, *cur = cur_section;
	struct section *was = cur && cur->pass == pass ? cur : NULL;
	char name[2] = { 'k', 0 };
	section_set(name, pass);
	struct section *s = cur_section;
	CHECK("section: selected", VH_M == 2 ? s && s != &A && s != &B : s == &A);
	if (!s) return;
	CHECK("section: no error", VH_NOERR);
# if VH_M == 0
		CHECK("section: selected again, it goes on where it was", same(&A, &A0) && freedspans == 0 && tables == 0);
		COVER("again");
# else
		CHECK("section: follows the one current before", s->pc == (was ? (was == &B ? B0.last_pc : A0.last_pc) : 0) && s->put == (was ? (was == &B ? B0.last_put : A0.last_put) : 0));
		CHECK("section: starts empty", s->spans == NULL && s->span == NULL && freedspans == (VH_M == 1 && A0.spans != NULL));
		CHECK("section: with the initial direct page", s->dp == (unsigned)asm6809_options.setdp);
		CHECK("section: lines counted anew", s->line_number == 0);
		CHECK("section: in this pass", s->pass == pass);
#  if VH_M == 1
			CHECK("section: what was recorded of it is kept", s->last_pc == A0.last_pc && s->last_put == A0.last_put && s->local_labels == A0.local_labels && tables == 0);
			if (was) COVER("following"); else COVER("at zero");
#  else
			CHECK("section: nothing recorded of a new one", s->last_pc == 0 && s->last_put == 0 && tables == 1 && s->local_labels == (struct dict *)&tobj[1]);
			CHECK("section: found again", vh_d[0].k && vh_d[0].v == s && vh_d[0].k != name && ((char *)vh_d[0].k)[0] == 'k');
			if (was) COVER("new, following"); else COVER("new");
#  endif
# endif
	CHECK("section: others are left alone", !any_sections || (same(&B, &B0) && vh_d[1].v == &B));
#else
	struct section A0 = A, B0 = B;
	section_finish_pass();
	_Bool a = A0.pc != A0.last_pc || A0.put != A0.last_put, b = B0.pc != B0.last_pc || B0.put != B0.last_put;
	CHECK("end of pass: inconsistent exactly if a section ends elsewhere than recorded", (G.err[error_type_inconsistent] > 0) == (a || b));
	CHECK("end of pass: no other error", G.err[error_type_syntax] + G.err[error_type_out_of_range] + G.err[error_type_data] + G.err[error_type_fatal] + G.err[error_type_illegal] + G.err[error_type_inefficient] == 0);
	CHECK("end of pass: the end is recorded", A.last_pc == A0.pc && A.last_put == A0.put && B.last_pc == B0.pc && B.last_put == B0.put);
	A.last_pc = A0.last_pc; A.last_put = A0.last_put; B.last_pc = B0.last_pc; B.last_put = B0.last_put;
	CHECK("end of pass: nothing else changes", same(&A, &A0) && same(&B, &B0));
	if (a && !b) COVER("moved"); else if (!a && !b) COVER("stable");
#endif
}
