/* C13: defining local labels.
 * @function symbol_local_set sym_local_equals sym_local_compar symbol_local_free
 * @callees gl_list_search gl_sortedlist_add gl_list_remove_node eval_node node_equal error
 * @props C13
 * @bounded 3 definitions, at any lines
 * @unwind 8
 * @opts --pointer-check
 * @assume gnulib's sorted list
 */
#define VH_M 2
#include "vh_local.h"
