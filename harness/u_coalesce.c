/* C08: one step of merging spans, from an arbitrary state.
 * @function section_coalesce section_span_free
 * @callees slist_copy slist_sort slist_free slist_free_1 xrealloc memcpy memset error
 * @props C08
 * @exact-bounded
 * @unwind 12
 * @bounded-unwind 5
 * @opts --no-pointer-check
 * @assume spans end below 2 GiB; memory of unbounded arrays
 */
#include "vh_coalesce.h"
