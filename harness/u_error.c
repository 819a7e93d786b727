/* C14: every error that matters is printed, in order, with where it was found.
 * @function verror error error_print_list
 * @callees slist_append slist_remove xvasprintf
 * @props C14
 * @bounded 3 errors in the list
 * @unwind 16
 * @opts --pointer-check
 */
#define VH_M 1
#include "vh_errunit.h"
