/* C14: passes, exit status and files written.  The pass loop by contract: any
 * number of passes; every pass but the last was merely inconsistent.
 * @function main close_file tidy_up_and_exit
 * @callees error error_clear_all error_print_list prog_new_file assemble_prog section_set section_finish_pass output_binary listing_print prog_print_exports prog_print_symbols fopen fclose ferror
 * @props C14
 * @variant asm -DVH_M=0
 * @variant files -DVH_M=1
 * @variant none -DVH_M=2
 * @exact-bounded
 * @unwind 24
 * @opts --pointer-check
 */
#include "vh.h"
#if defined(VH_CBMC) && !defined(VH_BOUNDED)
static void vh_pass(unsigned *pass, int max);
# define VERIFY_LOOP_pass vh_pass(&pass, max_passes)
#endif
#include "vh_main.h"
static int asked; /* files asked for: bits of names[] */
static int maxp;
#if defined(VH_CBMC) && !defined(VH_BOUNDED)
static int arrival; static unsigned p0;
static void vh_pass(unsigned *pass, int max) {
	ASSERT(*pass < (unsigned)max, "pass loop: at most so many");
	if (arrival++ == 0) {
		ASSERT(*pass == 0 && max == maxp, "pass loop: initially");
		*pass = vh_range(0, maxp - 1);
		p0 = *pass;
		error_level = anylevel();
		R.printed = 0;
		M.sections = M.finishes = *pass;
		M.bad = 1; /* the one before is not looked at */
		return;
	}
	ASSERT(*pass == p0 + 1, "pass loop: pass number");
	ASSERT(M.final == error_type_inconsistent, "pass loop: another pass only if the last was merely inconsistent");
	ASSERT(M.finishes == *pass && M.sections == *pass && M.assembled == 2, "pass loop: everything assembled in each pass");
	ASSERT(R.prints == 0 && M.outputs + M.opened == 0, "pass loop: nothing reported or written before the last pass");
#if VH_M == 0
	COVER("another pass");
#endif
	ASSUME(0);
}
#endif
static _Bool failing(int l) { return l >= error_type_inconsistent; }
static void finished(int s) {
#if VH_M == 2
	CHECK("exit: no input files is a failure", s == 1 && R.printed == error_type_fatal && M.files == 0 && M.outputs + M.opened == 0);
	COVER("none");
	return;
#endif
	if (failing(fileerr) && fileerr >= error_type_syntax) {
		CHECK("exit: errors reading the source are a failure", s == 1 && R.printed == fileerr);
		CHECK("exit: nothing is assembled or written then", M.sections == 0 && M.outputs + M.opened == 0);
#if VH_M == 0
		COVER("unreadable");
#endif
		return;
	}
	CHECK("exit: at least one pass", M.finishes >= 1 && M.sections == M.finishes && M.finishes <= (unsigned)maxp);
	CHECK("exit: not while passes remain and the last was merely inconsistent", M.final != error_type_inconsistent || M.finishes == (unsigned)maxp);
	if (failing(M.final)) {
		CHECK("exit: a failed assembly is a failure", s == 1);
		CHECK("exit: its errors are printed", R.printed == M.final);
		CHECK("exit: nothing is written after a failed assembly", M.outputs == 0 && M.opened == 0);
#if VH_M == 0
		COVER("failed");
#endif
		return;
	}
	CHECK("exit: every file asked for is written", M.outputs == (asked & 1) &&
		M.listings == ((asked >> 1 & 1) && !openfail[1]) && M.exports == ((asked >> 2 & 1) && !openfail[2]) && M.symbols == ((asked >> 3 & 1) && !openfail[3]));
	CHECK("exit: no other file is", M.opened == (unsigned)((asked >> 1 & 1) + (asked >> 2 & 1) + (asked >> 3 & 1)));
	CHECK("exit: files are closed", !isopen[1] && !isopen[2] && !isopen[3]);
	_Bool bad = M.outerr;
	if ((asked & 1) && failing(outerr)) bad = 1;
	if (M.exports && failing(experr)) bad = 1;
	if (M.symbols && failing(symerr)) bad = 1;
	CHECK("exit: success exactly if everything was written", s == (bad ? 1 : 0));
	CHECK("exit: failures are printed", !bad || failing(R.printed));
	CHECK("exit: warnings of the last pass are printed", rank(R.printed) >= rank(M.final));
#if VH_M == 1
	if (bad) COVER("not written");
	else COVER("written");
#endif
}
void vh_main(void) {
	vh_main_reset();
#if defined(VH_CBMC) && !defined(VH_BOUNDED)
	arrival = 0;
#endif
#if VH_M == 0
	asked = 15; fileerr = anylevel();
#else
	asked = vh_range(0, 15);
	if (asked & 2) { openfail[1] = vh_flag(); wfail[1] = vh_flag(); cfail[1] = vh_flag(); }
	if (asked & 4) { openfail[2] = vh_flag(); wfail[2] = vh_flag(); cfail[2] = vh_flag(); experr = anylevel(); }
	if (asked & 8) { openfail[3] = vh_flag(); wfail[3] = vh_flag(); cfail[3] = vh_flag(); symerr = anylevel(); }
	outerr = anylevel();
#endif
	if (fileerr > 0 && fileerr < error_type_syntax) fileerr = 0; /* parsing raises nothing less */
	output_filename = asked & 1 ? (char *)names[0] : NULL;
	listing_filename = asked & 2 ? (char *)names[1] : NULL;
	exports_filename = asked & 4 ? (char *)names[2] : NULL;
	symbol_filename = asked & 8 ? (char *)names[3] : NULL;
#ifdef VH_CBMC
# ifdef VH_BOUNDED
	maxp = 3;
# else
	maxp = vh_range(2, 255);
# endif
#else
	maxp = vh_range(2, 6);
#endif
	max_passes = maxp;
	vh_run(VH_M == 2 ? 0 : 2);
}
