/* C20: dictionaries over the hash table of gnulib (by its contract: a set of
 * entries, no two of them equal).  A dictionary of any size: a watched key and
 * the key operated on decide everything, since each operation concerns one key
 * and the table treats entries under other keys alike.
 * @function dict_new dict_new_full dict_destroy dict_lookup dict_find_ent dict_add_ent dict_insert dict_replace dict_add dict_remove dict_steal dict_foreach dict_foreach_processor dict_get_keys dict_get_values add_key add_value dict_ent_hash dict_ent_equal dict_ent_free
 * @callees hash_initialize hash_lookup hash_insert hash_delete hash_free hash_do_for_each slist_prepend
 * @props C20
 * @variant insert.0 -DVH_OP=0 -DVH_DES=4
 * @variant insert.k -DVH_OP=0 -DVH_DES=1
 * @variant insert.v -DVH_OP=0 -DVH_DES=2
 * @variant replace.0 -DVH_OP=1 -DVH_DES=4
 * @variant replace.k -DVH_OP=1 -DVH_DES=1
 * @variant replace.v -DVH_OP=1 -DVH_DES=2
 * @variant add.0 -DVH_OP=2 -DVH_DES=4
 * @variant add.k -DVH_OP=2 -DVH_DES=1
 * @variant add.v -DVH_OP=2 -DVH_DES=2
 * @variant remove.0 -DVH_OP=3 -DVH_DES=4
 * @variant remove.k -DVH_OP=3 -DVH_DES=1
 * @variant remove.v -DVH_OP=3 -DVH_DES=2
 * @variant steal.0 -DVH_OP=4 -DVH_DES=4
 * @variant steal.k -DVH_OP=4 -DVH_DES=1
 * @variant steal.v -DVH_OP=4 -DVH_DES=2
 * @variant lookup.0 -DVH_OP=5 -DVH_DES=4
 * @variant foreach.0 -DVH_OP=6 -DVH_DES=4
 * @variant destroy.0 -DVH_OP=7 -DVH_DES=4
 * @variant destroy.k -DVH_OP=7 -DVH_DES=1
 * @variant destroy.v -DVH_OP=7 -DVH_DES=2
 * @unwind 8
 * @opts --pointer-check
 * @exact-bounded
 * @assume gnulib hash: hash_lookup/insert/delete/do_for_each/free behave as a set of entries under the comparator given
 */
#include "vh.h"
struct vh_ghost G;
/* storage: one dictionary, and entries (each allocated and released once) */
static void *vh_alloc(size_t n);
static void vh_release(void *p);
#define xmalloc vh_alloc
#define free vh_release
#include "dict.c"
#undef free
#undef xmalloc
static struct dict vh_dict;
static struct dict_ent vh_ent[4];
static unsigned vh_dicts, vh_ents, vh_gone[4], vh_dictgone;
static void *vh_alloc(size_t n) {
	if (n == sizeof(struct dict)) { ASSERT(vh_dicts == 0, "one dictionary"); vh_dicts++; return &vh_dict; }
	ASSERT(n == sizeof(struct dict_ent) && vh_ents < 4, "one entry per insertion");
	return &vh_ent[vh_ents++];
}
static void vh_release(void *p) {
	if (p == &vh_dict) { vh_dictgone++; return; }
	for (int i = 0; i < 4; i++) if (p == &vh_ent[i]) { ASSERT(!vh_gone[i], "an entry is released once"); vh_gone[i]++; vh_ent[i] = (struct dict_ent){0}; return; }
	ASSERT(0, "only entries are released");
}

/* keys: class[i] says which are equal */
#define NK 4
static char key[NK], val[NK + 2];
static int class[NK];
#define K(i) ((void *)&key[i])
static unsigned kd[NK], vd[NK + 2], bad;    /* destructor calls */
static int cls(const void *k) { for (int i = 0; i < NK; i++) if (k == K(i)) return class[i]; bad++; return -1; }
static size_t hashf(const void *k, size_t n) { return (unsigned)cls(k) % n; }
static bool equalf(const void *a, const void *b) { return cls(a) == cls(b); }
static void kfree(void *k) { for (int i = 0; i < NK; i++) if (k == K(i)) kd[i]++; }
static void vfree(void *v) { for (int i = 0; i < NK + 2; i++) if (v == &val[i]) vd[i]++; }

/* contract of the hash table: the entries under the watched key and under the
 * other key of interest */
static char ht_obj;
#define HT ((Hash_table *)&ht_obj)
static void *ent[2];
static Hash_hasher H;
static Hash_comparator C;
static Hash_data_freer F;
static unsigned inits, frees;
Hash_table *hash_initialize(size_t n, const Hash_tuning *t, Hash_hasher h, Hash_comparator c, Hash_data_freer f) {
	ASSERT(h && c, "hash_initialize: functions");
	inits++; H = h; C = c; F = f; ent[0] = ent[1] = NULL;
	return HT;
}
static int at(const void *q) {
	for (int i = 0; i < 2; i++) if (ent[i] && C(ent[i], q)) { ASSERT(H(ent[i], 11) == H(q, 11), "equal entries hash alike"); return i; }
	return -1;
}
void *hash_lookup(const Hash_table *t, const void *q) { ASSERT(t == HT, "the table"); int i = at(q); return i < 0 ? NULL : ent[i]; }
void *hash_insert(Hash_table *t, const void *e) {
	ASSERT(t == HT, "the table");
	int i = at(e);
	if (i >= 0) return ent[i];
	i = ent[0] ? 1 : 0;
	ASSERT(ent[i] == NULL, "at most one entry added");
	ent[i] = (void *)e;
	return (void *)e;
}
void *hash_delete(Hash_table *t, const void *q) {
	ASSERT(t == HT, "the table");
	int i = at(q);
	if (i < 0) return NULL;
	void *e = ent[i];
	ent[i] = NULL;
	return e;
}
void hash_free(Hash_table *t) {
	ASSERT(t == HT, "the table");
	frees++;
	for (int i = 0; i < 2; i++) if (F && ent[i]) F(ent[i]);
}
size_t hash_do_for_each(const Hash_table *t, Hash_processor p, void *d) {
	ASSERT(t == HT, "the table");
	size_t n = 0;
	for (int i = 0; i < 2; i++) if (ent[i]) { if (!p(ent[i], d)) return n; n++; }
	return n;
}
void xalloc_die(void) { ASSERT(0, "xalloc_die: no allocation failed"); ASSUME(0); }
static struct slist cells[2];
static unsigned ncells;
struct slist *slist_prepend(struct slist *l, void *d) {
	ASSERT(ncells < 2, "slist_prepend: one cell per entry");
	struct slist *c = &cells[ncells++];
	c->data = d; c->next = l;
	return c;
}
static unsigned nf;
static void *fk[2], *fv[2];
static void feach(void *k, void *v, void *x) { if (x != &nf || nf >= 2) { bad++; return; } fk[nf] = k; fv[nf] = v; nf++; }

/* Everything depends only on which keys are equal and present: all cases. */
static void one(int VH_HAS, int c2, int c3) {
	G = (struct vh_ghost){0};
	bad = inits = frees = ncells = nf = 0;
	vh_dicts = vh_ents = vh_dictgone = 0;
	for (int i = 0; i < 4; i++) vh_gone[i] = 0;
	for (int i = 0; i < NK; i++) { kd[i] = 0; }
	class[0] = 0; class[1] = 1; class[2] = c2; class[3] = c3;
	for (int i = 0; i < NK + 2; i++) vd[i] = 0;
	_Bool kdes = VH_DES & 1, vdes = VH_DES >> 1 & 1, plain = VH_DES >> 2;
	struct dict *d = plain ? dict_new(hashf, equalf) : dict_new_full(hashf, equalf, kdes ? kfree : NULL, vdes ? vfree : NULL);
	if (plain) kdes = vdes = 0;
	ASSERT(inits == 1, "one table");
	/* entries: key 0 is watched, key 1 is the one operated on; the table may
	 * already hold either (key 2 and 3: keys passed in, equal or not) */
	_Bool has0 = VH_HAS & 1, has1 = VH_HAS >> 1;
		if (has0) dict_insert(d, K(0), &val[0]);
	if (has1) dict_insert(d, K(1), &val[1]);
	int w = c3;          /* class looked up afterwards, through key 3 */
	void *before = has0 && class[0] == w ? &val[0] : has1 && class[1] == w ? &val[1] : NULL;
	CHECK("dict_lookup: the value stored under an equal key, or none", dict_lookup(d, K(3)) == before);
	for (int i = 0; i < NK; i++) CHECK("dict_insert: fresh keys are kept", kd[i] == 0);
	for (int i = 0; i < NK; i++) CHECK("dict_insert: values are kept", vd[i] == 0);
	/* the entry under key 2, if any */
	int m = has0 && class[0] == class[2] ? 0 : has1 && class[1] == class[2] ? 1 : -1;
	/* at most two entries: one under the key operated on, one other */
	if (m < 0 && has0 && has1) return;
	void *nv = VH_OP == 2 ? K(2) : (void *)&val[2];
	void *want = before;
	switch (VH_OP) {
	case 0: dict_insert(d, K(2), nv); break;
	case 1: dict_replace(d, K(2), nv); break;
	case 2: dict_add(d, K(2)); break;
	case 3: CHECK("dict_remove: tells whether there was an entry", dict_remove(d, K(2)) == (m >= 0)); break;
	case 4: CHECK("dict_steal: tells whether there was an entry", dict_steal(d, K(2)) == (m >= 0)); break;
	case 5: break;
	case 6: {
		dict_foreach(d, feach, &nf);
		CHECK("dict_foreach: each entry once, with its key and value", nf == has0 + has1 && !bad &&
			(!has0 || (fk[0] == K(0) && fv[0] == &val[0])) && (!has1 || (fk[has0] == K(1) && fv[has0] == &val[1])));
		struct slist *l = dict_get_values(d);
		unsigned n = 0, h0 = 0, h1 = 0;
		for (; l && n < 3; l = l->next) { n++; h0 += l->data == &val[0]; h1 += l->data == &val[1]; }
		CHECK("dict_get_values: every value once", n == has0 + has1 && h0 == has0 && h1 == has1);
		ncells = 0;
		l = dict_get_keys(d);
		n = h0 = h1 = 0;
		for (; l && n < 3; l = l->next) { n++; h0 += l->data == K(0); h1 += l->data == K(1); }
		CHECK("dict_get_keys: every key once", n == has0 + has1 && h0 == has0 && h1 == has1);
		break; }
	case 7:
		dict_destroy(d);
		CHECK("dict_destroy: table released, every key and value destroyed once", frees == 1 &&
			kd[0] == (has0 && kdes) && kd[1] == (has1 && kdes) && vd[0] == (has0 && vdes) && vd[1] == (has1 && vdes));
		CHECK("dict_destroy: the dictionary and its entries are released", vh_dictgone == 1 && vh_gone[0] == (has0 || has1) && vh_gone[1] == (has0 && has1));
		return;
	}
	if (VH_OP <= 2 && class[2] == w) want = nv;
	if ((VH_OP == 3 || VH_OP == 4) && class[2] == w) want = NULL;
	CHECK("dict: a lookup gives the value most recently stored, or none", dict_lookup(d, K(3)) == want);
	CHECK("dict: only keys and values of the entries are touched", !bad && kd[3] == 0 && vd[2] == 0 && vd[3] == 0 && vd[4] == 0 && vd[5] == 0);
	for (int i = 0; i < 2; i++) {
		_Bool hit = m == i;
		CHECK("dict: values go when replaced or removed, once, and no others", vd[i] == (hit && vdes && VH_OP <= 3));
		CHECK("dict: keys go when replaced or removed, once, and no others", kd[i] == (hit && kdes && VH_OP >= 1 && VH_OP <= 3));
	}
	CHECK("dict_insert: a key for an existing entry is destroyed, one kept is not", kd[2] == (VH_OP == 0 && m >= 0 && kdes));
	CHECK("dict: the dictionary itself stays", vh_dictgone == 0);
	
}

void vh_main(void) {
	for (int h = 0; h < 4; h++)
		for (int c2 = 0; c2 < 3; c2++)
			for (int c3 = 0; c3 < 3; c3++)
				one(h, c2, c3);
	COVER("all cases");
}
