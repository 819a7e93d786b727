/* getopt_long() and strtol() by contract */
/* A number is an opaque text "dA": its value is V[a] when read as a whole in
 * the base its notation asks for, and something else when read otherwise.  K_DEC0 is a decimal number written with a leading zero. */
#define NA 2 /* arguments */
enum { K_HEX, K_OCT, K_BIN, K_0X, K_0B, K_DEC, K_DEC0, K_NEG, K_NONE, K_COUNT };
static struct { int kind; char d; int64_t v; _Bool range; char text[8]; } A[NA];
static int kbase[K_COUNT] = { 16, 8, 2, 16, 2, 10, 10, 10, 0 };
static int64_t garbage;
long vh_strtol(const char *p, char **end, int base) {
	for (int a = 0; a < NA; a++) {
		const char *t = p; int k = A[a].kind;
		_Bool neg = 0, x = 0, lead = 0;
		if (k == K_NONE) continue;
		if (k == K_NEG && *t == '-') { neg = 1; t++; }
		if (k == K_0X && t[0] == '0' && t[1] == 'x') { x = 1; t += 2; }
		if (k == K_DEC0 && t[0] == '0') { lead = 1; t++; }
		if (t[0] == A[a].d && t[1] == 'A' + a && t[2] == 0) {
			if (end) *end = (char *)t + 2;
			if (k == K_NEG && !neg) continue;
			if (base == kbase[k] || (base == 0 && (x || (k == K_DEC && A[a].d != '0') || (k == K_DEC0 && !lead && A[a].d != '0')))) {
				if (A[a].range) errno = ERANGE;
				return A[a].v;
			}
		}
	}
	if (end) *end = (char *)p; /* no number there */
	return 0;
}
char *optarg; int optind;
static int eqs(const char *a, const char *b) { for (; *a && *a == *b; a++, b++); return *a == *b; }
enum { W_FMT, W_ISA = 5, W_EXEC = 7, W_DEF, W_DEF1, W_DP, W_PASS, W_OUT, W_LST, W_EXP, W_SYM, W_Q, W_V, W_HELP, W_VERSION, W_BAD };
static struct { const char *l; char s; int what, arg; } spec[] = {
	{ "bin", 0, W_FMT + 0, 0 }, { NULL, 'B', W_FMT + 0, 0 },
	{ "dragondos", 0, W_FMT + 1, 0 }, { NULL, 'D', W_FMT + 1, 0 },
	{ "coco", 0, W_FMT + 2, 0 }, { NULL, 'C', W_FMT + 2, 0 },
	{ "srec", 0, W_FMT + 3, 0 }, { NULL, 'S', W_FMT + 3, 0 },
	{ "hex", 0, W_FMT + 4, 0 }, { NULL, 'H', W_FMT + 4, 0 },
	{ "6809", 0, W_ISA + 0, 0 }, { NULL, '8', W_ISA + 0, 0 }, { NULL, '9', W_ISA + 0, 0 },
	{ "6309", 0, W_ISA + 1, 0 }, { NULL, '3', W_ISA + 1, 0 },
	{ "exec", 0, W_EXEC, 1 }, { NULL, 'e', W_EXEC, 1 },
	{ "define", 0, W_DEF, 1 }, { NULL, 'd', W_DEF, 1 },
	{ "define", 0, W_DEF1, 1 }, { NULL, 'd', W_DEF1, 1 },
	{ "setdp", 0, W_DP, 1 },
	{ "max-passes", 0, W_PASS, 1 }, { NULL, 'P', W_PASS, 1 },
	{ "output", 0, W_OUT, 1 }, { NULL, 'o', W_OUT, 1 },
	{ "listing", 0, W_LST, 1 }, { NULL, 'l', W_LST, 1 },
	{ "exports", 0, W_EXP, 1 }, { NULL, 'E', W_EXP, 1 },
	{ "symbols", 0, W_SYM, 1 }, { NULL, 's', W_SYM, 1 },
	{ "quiet", 0, W_Q, 0 }, { NULL, 'q', W_Q, 0 },
	{ "verbose", 0, W_V, 0 }, { NULL, 'v', W_V, 0 },
	{ "help", 0, W_HELP, 0 }, { "version", 0, W_VERSION, 0 },
	{ "nosuch", 0, W_BAD, 0 },
};
#define NSPEC ((int)(sizeof spec / sizeof *spec))
#define MAXO 3
static int sc_opt[MAXO], sc_n, sc_at; static char *sc_arg[MAXO];
static int match(int e, char *arg, const char *so, const struct option *lo) {
	if (spec[e].l) {
		for (; lo->name; lo++) if (eqs(lo->name, spec[e].l)) {
			if ((lo->has_arg == required_argument) != spec[e].arg) return '?';
			if (spec[e].arg) optarg = arg;
			if (lo->flag) { *lo->flag = lo->val; return 0; }
			return lo->val;
		}
		return '?';
	}
	for (; *so; so++) if (*so == spec[e].s && *so != ':') {
		if ((so[1] == ':') != spec[e].arg) return '?';
		if (spec[e].arg) optarg = arg;
		return spec[e].s;
	}
	return '?';
}
int getopt_long(int argc, char *const *argv, const char *so, const struct option *lo, int *idx) {
	int r = '?';
	optarg = NULL;
	if (sc_at >= sc_n) { optind = 1; return -1; }
	int i = sc_at++;
	for (int e = 0; e < NSPEC; e++) if (sc_opt[i] == e) r = match(e, sc_arg[i], so, lo);
	return r;
}
