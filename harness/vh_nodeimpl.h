/* The real node.c and (with VH_EXEC) eval.c, with node_free() by contract: it
 * drops one reference and releases the node, and what the node owns, with the
 * last one (enforced on the real body by u_node_free.c).  Only for nodes of
 * base types. */
#if defined(VH_CBMC) && defined(VH_MODULAR)
# define node_free real_node_free
# define node_set_attr real_node_set_attr
# define node_set_attr_if real_node_set_attr_if
#endif
#include "node.c"
#undef node_free
#undef node_set_attr
#undef node_set_attr_if
#if defined(VH_CBMC) && defined(VH_MODULAR)
void node_free(struct node *n);
/* node_set_attr(): the node, or if referred to from elsewhere a copy that takes
 * its place, gets the attribute (enforced on the real body by u_node_attr.c). */
struct node *node_set_attr(struct node *n, enum node_attr attr) {
	if (!n || n->attr == attr) return n;
	if (n->ref > 1) {
		struct node *c = xmalloc(sizeof(*c));
		if (n->type == node_type_float)
			*c = (struct node){ .type = n->type, .ref = 1, .attr = attr, .data = { .as_float = n->data.as_float } };
		else if (n->type == node_type_string) {
			char *t = n->data.as_string;
# ifdef VH_FREE_STRINGS
			t = xstrdup(t);
# endif
			*c = (struct node){ .type = n->type, .ref = 1, .attr = attr, .data = { .as_string = t } };
		} else if (n->type == node_type_reg)
			*c = (struct node){ .type = n->type, .ref = 1, .attr = attr, .data = { .as_reg = n->data.as_reg } };
		else
			*c = (struct node){ .type = n->type, .ref = 1, .attr = attr, .data = { .as_int = n->data.as_int } };
		node_free(n);
		return c;
	}
	n->attr = attr;
	return n;
}
struct node *node_set_attr_if(struct node *n, enum node_attr attr) {
	if (n && attr == node_attr_none && (n->attr == node_attr_postinc || n->attr == node_attr_postinc2 ||
	    n->attr == node_attr_predec || n->attr == node_attr_predec2 || n->attr == node_attr_postdec)) return n;
	return node_set_attr(n, attr);
}
void node_free(struct node *n) {
	if (!n) return;
	ASSERT(n->ref >= 1, "node_free() of a referenced node");
	n->ref--;
	if (n->ref == 0) {
#ifdef VH_FREE_STRINGS
		if (n->type == node_type_string) free(n->data.as_string);
#endif
		free(n);
	}
}
#endif
#ifdef VH_EXEC
# include "eval.c"
#endif
