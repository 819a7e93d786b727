/* dict by contract (u_dict): one dictionary of string keys, of which two are
 * distinguished.  Storing under a key releases what was stored there. */
#include "dict.h"
static struct { void *k, *v; } vh_d[2];  /* keys "k..." and others */
static Hash_data_freer vh_kf, vh_vf;
static char vh_dictobj[1];
static unsigned vh_dnew;
static int vh_which(const void *k) { return *(const char *)k == 'k' ? 0 : 1; }
struct dict *dict_new(Hash_hasher h, Hash_comparator c) { ASSERT(vh_dnew++ == 0, "one dictionary"); return (struct dict *)vh_dictobj; }
struct dict *dict_new_full(Hash_hasher h, Hash_comparator c, Hash_data_freer kf, Hash_data_freer vf) {
	vh_kf = kf; vh_vf = vf;
	return dict_new(h, c);
}
static _Bool vh_isdict(struct dict *d) { return d == (struct dict *)vh_dictobj; }
void *dict_lookup(struct dict *d, const void *k) {
	ASSERT(vh_isdict(d), "dict_lookup: of a dictionary");
	int i = vh_which(k);
	return vh_d[i].k ? vh_d[i].v : NULL;
}
static void vh_drop(int i) {
	void *k = vh_d[i].k, *v = vh_d[i].v;
	vh_d[i].k = NULL;
	if (k && vh_kf) vh_kf(k);
	if (k && vh_vf) vh_vf(v);
}
void dict_insert(struct dict *d, void *k, void *v) {
	ASSERT(vh_isdict(d), "dict_insert: of a dictionary");
	int i = vh_which(k);
	vh_drop(i);
	vh_d[i].k = k; vh_d[i].v = v;
}
void dict_foreach(struct dict *d, dict_iter_func f, void *data) {
	ASSERT(vh_isdict(d), "dict_foreach: of a dictionary");
	for (int i = 0; i < 2; i++) if (vh_d[i].k) f(vh_d[i].k, vh_d[i].v, data);
}
void dict_destroy(struct dict *d) {
	ASSERT(vh_isdict(d) && vh_dnew == 1, "dict_destroy: of a dictionary");
	vh_drop(0); vh_drop(1);
	vh_dnew = 0;
}
bool dict_str_equal(const void *a, const void *b) { return strcmp(a, b) == 0; }
size_t hash_djb2(const void *k, size_t m) { return 0; }
bool dict_direct_equal(const void *a, const void *b) { return a == b; }
size_t dict_direct_hash(const void *k, size_t m) { return 0; }
