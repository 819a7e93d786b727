/* C13: references to local labels find the nearest occurrence, among any number
 * of them, searched for in a tree of any shape.
 * @function symbol_local_backref symbol_local_fwdref sym_local_compar_backref sym_local_compar_fwdref
 * @callees gl_sortedlist_search dict_lookup node_ref error
 * @props C13
 * @variant back -DVH_M=0
 * @variant fwd -DVH_M=1
 * @exact-bounded
 * @unwind 8
 * @opts --pointer-check
 * @assume gnulib's sorted list searches as a binary search tree does
 */
#include "vh_local.h"
