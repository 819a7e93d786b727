/* C14: what counts as the level of a pass.
 * @function verror error error_clear_all
 * @callees slist_append slist_remove xvasprintf
 * @props C14
 * @unwind 16
 * @opts --pointer-check
 */
#define VH_M 0
#include "vh_errunit.h"
