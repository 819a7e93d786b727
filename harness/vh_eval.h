/* Contracts of eval_int(), node_free() and the node accessors as seen by
 * callers that only handle evaluated (base type) nodes.  Enforced on the real
 * bodies by u_eval_int.c and u_node_free.c. */
#ifndef VH_EVAL_H_
#define VH_EVAL_H_

#include "vh.h"
#include "node.h"
#include "eval.h"

/* Integer meaning of a string: big-endian value of its bytes, last four kept.
 * Characters are unsigned bytes. */
static inline int64_t spec_strval(const char *s) {
	uint32_t v = 0;
	for (int i = 0; s[i]; i++)
		v = (v << 8) | (uint8_t)s[i];
	return v;
}
static inline _Bool spec_has_int(struct node const *n) {
	return n && (n->type == node_type_int || n->type == node_type_float || n->type == node_type_string);
}
static inline int64_t spec_as_int(struct node const *n) {
	switch (n->type) {
	case node_type_int: return n->data.as_int;
	case node_type_float: return (int64_t)n->data.as_float;
	case node_type_string: return spec_strval(n->data.as_string);
	default: return 0;
	}
}

#ifndef VH_EXEC
#ifndef VH_NO_EVAL_INT_CONTRACT
struct node *eval_int(struct node *n)
REQUIRES(n == NULL || n->ref >= 1)
ASSIGNS(n != NULL: n->ref)
ENSURES(!spec_has_int(n) ? RET == NULL :
	n->type == node_type_int ? RET == n : __CPROVER_is_fresh(RET, sizeof(struct node)))
ENSURES(RET != NULL && RET != n ==> RET->ref == 1 && RET->type == node_type_int && RET->attr == n->attr && RET->data.as_int == spec_as_int(n))
ENSURES(n != NULL ==> n->ref == OLD(n->ref) + (RET == n ? 1u : 0u))
;
#endif
#ifndef VH_NO_NODE_FREE_CONTRACT
/* for nodes that own nothing but themselves */
void node_free(struct node *n)
REQUIRES(n == NULL || (n->ref >= 1 && (n->type == node_type_empty || n->type == node_type_int || n->type == node_type_float || n->type == node_type_reg || n->type == node_type_string)))
ASSIGNS(n != NULL: n->ref)
FREES(n != NULL && n->ref == 1: n)
ENSURES(n != NULL && OLD(n->ref) > 1 ==> n->ref == OLD(n->ref) - 1u)
ENSURES(n != NULL && OLD(n->ref) == 1 ==> __CPROVER_was_freed(n))
;
#endif
#endif
#endif
