/* output.c: the writers, against a decoder fed with what they write.
 *
 * The image is what section_coalesce_all() returns by contract (C08): a list of
 * spans that do not overlap, or a single span if padded.  An arbitrary address W
 * is watched, and an arbitrary span X of the list is the one an arbitrary
 * iteration of a loop over the spans visits (loop contract, hooks in output.c).
 * With VH_BOUNDED, and natively, the list is a concrete one instead.
 *
 * VH_F: 0 binary, 1 DragonDOS, 2 CoCo, 3 S-record, 4 Intel HEX. */
#include <stdarg.h>
#include <errno.h>
#include "vh.h"
struct vh_ghost G;
#define VH_NO_EMIT_CONTRACT
#include "vh_emit.h"
#include "asm6809.h"
#include "node.h"
#include "slist.h"
#include "symbol.h"
#include "eval.h"
struct section *cur_section;
struct asm6809_options asm6809_options;
#if defined(VH_CBMC) && !defined(VH_BOUNDED)
# define VH_ABS
#endif
#define VH_16BIT (VH_F != 0)
#define VH_MAXSIZE (VH_F == 1 || VH_F == 2 ? 0xffffu : 0x10000u)

/* --- the image --------------------------------------------------------------- */
#define VH_NS 3
static struct section sect;
static unsigned coalesced, sectfreed; static _Bool padded;
static struct section_span X; static struct slist NX; /* abstract */
#ifdef VH_ABS
extern uint8_t xdata[__CPROVER_constant_infinity_uint]; /* arbitrary */
#else
static uint8_t data[VH_NS][128];
#endif
static struct section_span sp[VH_NS]; static struct slist nd[VH_NS]; static int nsp; /* concrete */
static unsigned W;        /* watched address (byte number, for raw binary) */
static _Bool exists; static uint8_t wval; /* is it in the image, and its value */
static _Bool nonempty; static unsigned firstput;
static _Bool inX, afterX, firstX;
static char opaque[4];
static _Bool fits(struct section_span *s) { return s->put <= 0x10000 && s->size <= 0x10000 - s->put && s->size <= VH_MAXSIZE; }
struct section *section_coalesce_all(_Bool pad) {
	ASSERT(coalesced++ == 0, "spans are merged once");
	padded = pad;
	ASSERT(pad == (VH_F <= 1), "padded exactly for formats of a single block");
	return &sect;
}
void section_free(struct section *s) { ASSERT(s == &sect && sectfreed++ == 0, "merged spans released once"); }

/* --- the file ---------------------------------------------------------------- */
static struct { _Bool openfail, wfail, closefail; unsigned opened, closed; } F;
static char fobj[2];
#define FP ((FILE *)fobj)
FILE *vh_fopen(const char *n, const char *m) {
	ASSERT(m[0] == 'w' && m[1] == 'b' && n[0] == 'o', "fopen: the output file, binary");
	if (F.openfail) return NULL;
	ASSERT(F.opened++ == 0, "opened once");
	return FP;
}
static void ok(FILE *f) { ASSERT(f == FP && F.opened == 1 && F.closed == 0, "writing to the open file"); }
int vh_ferror(FILE *f) { ok(f); return F.wfail; }
int vh_fclose(FILE *f) { ok(f); F.closed++; return F.closefail ? EOF : 0; }

/* --- the decoder -------------------------------------------------------------- */
static struct {
	uint32_t n;           /* bytes written (raw) */
	unsigned k, nib, cnt, addr, sum, type; _Bool half, line; /* record */
	unsigned remain; _Bool indata;  /* coco */
	unsigned hits; uint8_t val;     /* of the watched byte */
	unsigned ends, exec, size, recs;
} D;
static void hit(unsigned a, uint8_t v) { if (a == W) { D.hits++; D.val = v; } }
#if VH_F >= 3
/* text: one byte is complete */
static void byte(uint8_t v) {
	unsigned k = D.k++;
	D.sum += v;
	if (k == 0) {
		D.cnt = v;
		if (VH_F == 3) CHECK("record: count", D.type == 9 ? v == 3 : v >= 4 && v <= 35);
		else CHECK("record: count", v <= 32);
		return;
	}
	if (k == 1) { D.addr = v << 8; return; }
	if (k == 2) { D.addr |= v; return; }
	if (VH_F == 4 && k == 3) {
		CHECK("record: data or end", v == 0 || v == 1);
		D.type = v ? 9 : 1;
		CHECK("record: length", v ? D.cnt == 0 : D.cnt >= 1);
		return;
	}
	unsigned h = VH_F == 3 ? 3 : 4, len = VH_F == 3 ? D.cnt - 3 : D.cnt;
	if (k - h < len) {
		CHECK("record: address within memory", D.addr + (k - h) <= 0xffff);
		hit(D.addr + (k - h), v);
		return;
	}
	CHECK("record: as many bytes as counted", k - h == len);
	CHECK("record: checksum", (uint8_t)D.sum == (VH_F == 3 ? 0xff : 0));
	if (D.type == 9) { D.ends++; D.exec = D.addr; }
	else CHECK("record: data before the end record", D.ends == 0);
}
static void vh_put(int c) {
	if (!D.line) { /* first character */
		CHECK("record: starts with its mark", c == (VH_F == 3 ? 'S' : ':'));
		CHECK("record: nothing after the end record", D.ends == 0);
		D.line = 1; D.k = 0; D.half = 0; D.sum = 0; D.cnt = 0; D.recs++;
		D.type = VH_F == 3 ? 0 : 1;
		return;
	}
	if (VH_F == 3 && D.type == 0) {
		CHECK("record: S1 or S9", c == '1' || c == '9');
		D.type = c == '9' ? 9 : 1;
		return;
	}
	if (c == '\n') {
		CHECK("record: complete", !D.half && D.k == (VH_F == 3 ? D.cnt + 1 : D.cnt + 5));
		D.line = 0;
		return;
	}
	CHECK("record: hexadecimal digits", (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'));
	unsigned v = c <= '9' ? c - '0' : c - 'A' + 10;
	if (!D.half) { D.nib = v & 15; D.half = 1; return; }
	D.half = 0;
	byte(D.nib << 4 | (v & 15));
}
#elif VH_F == 2
static void vh_put(int c) {
	uint8_t v = c;
	if (D.indata) { hit(D.addr + (D.cnt - D.remain), v); D.remain--; if (!D.remain) { D.indata = 0; D.k = 0; } return; }
	CHECK("coco: nothing after the trailer", D.ends == 0);
	switch (D.k++) {
	case 0: D.type = v; CHECK("coco: block mark", v == 0 || v == 0xff); break;
	case 1: D.cnt = v << 8; break;
	case 2: D.cnt |= v; break;
	case 3: D.addr = v << 8; break;
	default:
		D.addr |= v;
		if (D.type) { CHECK("coco: trailer of length zero", D.cnt == 0); D.ends++; D.exec = D.addr; D.k = 0; }
		else {
			D.remain = D.cnt; D.indata = D.cnt > 0; D.k = 0; D.recs++;
			CHECK("coco: block within memory", D.addr + D.cnt <= 0x10000);
		}
	}
}
#else
static void vh_put(int c) {
	uint8_t v = c;
	if (VH_F == 1 && D.n < 9) {
		static const int hdr[9] = { 0x55, 2, -1, -1, -1, -1, -1, -1, 0xaa };
		CHECK("dragondos: header marks", hdr[D.n] < 0 || hdr[D.n] == v);
		if (D.n == 2 || D.n == 3) D.addr = (D.addr << 8 | v) & 0xffff;
		if (D.n == 4 || D.n == 5) D.size = (D.size << 8 | v) & 0xffff;
		if (D.n == 6 || D.n == 7) D.exec = (D.exec << 8 | v) & 0xffff;
	} else {
		hit(D.addr + (D.n - (VH_F == 1 ? 9 : 0)), v);
	}
	D.n++;
}
#endif
int vh_fputc(int c, FILE *f) { ok(f); vh_put((unsigned char)c); return F.wfail ? EOF : c; }
int vh_fputs(const char *s, FILE *f) { ok(f); for (; *s; s++) vh_put((unsigned char)*s); return 0; }
size_t vh_fwrite(const void *p, size_t a, size_t b, FILE *f) {
	ok(f);
	const uint8_t *q = p;
	size_t n = a * b;
	ASSERT(a == 1 || b == 1, "fwrite: of bytes");
#ifdef VH_ABS
	/* as a block: only the watched byte is looked at */
# if VH_F == 2
	ASSERT(D.indata && D.remain == n && n == D.cnt, "coco: block of the length announced");
	if (W - D.addr < n) { D.hits++; D.val = q[W - D.addr]; }
	D.indata = 0; D.remain = 0;
	return n;
# elif VH_F <= 1
	if (VH_F == 1) ASSERT(D.n >= 9, "dragondos: header first");
	uint32_t at = D.n - (VH_F == 1 ? 9 : 0);
	if (n && W - (D.addr + at) < n) { D.hits++; if (W - (D.addr + at) < 0x10000) D.val = q[W - (D.addr + at)]; }
	D.n += n;
	return n;
# endif
#endif
	for (size_t i = 0; i < n; i++) vh_put(q[i]);
	return n;
}
static void hexdig(unsigned v, unsigned w, int zero) {
	/* at least w digits */
	unsigned n = 1;
	while (n < 8 && v >> (4 * n)) n++;
	(void)zero;
	for (unsigned i = n; i < w; i++) vh_put('0');
	while (n--) vh_put("0123456789ABCDEF"[v >> (4 * n) & 15]);
}
int vh_fprintf(FILE *f, const char *fmt, ...) {
	ok(f);
	va_list ap;
	va_start(ap, fmt);
	for (; *fmt; fmt++) {
		if (*fmt != '%') { vh_put((unsigned char)*fmt); continue; }
		fmt++;
		unsigned w = 0;
		while (*fmt >= '0' && *fmt <= '9') w = w * 10 + (*fmt++ - '0');
		while (*fmt == 'h') fmt++;
		ASSERT(*fmt == 'X' || *fmt == 's' || *fmt == 'c' || *fmt == '%', "fprintf: known conversion");
		if (*fmt == 'X') {
			unsigned v = va_arg(ap, unsigned);
#ifdef VH_CBMC
			ASSERT(w == 0 || w >= 8 || v >> (4 * w) == 0, "record: value fits its field");
			ASSUME(w == 0 || w >= 8 || v >> (4 * w) == 0);
			if (w) { for (int i = w - 1; i >= 0; i--) vh_put("0123456789ABCDEF"[v >> (4 * i) & 15]); continue; }
#endif
			hexdig(v, w, 1);
		} else if (*fmt == 's') { for (const char *s = va_arg(ap, const char *); *s; s++) vh_put((unsigned char)*s); }
		else if (*fmt == 'c') vh_put((unsigned char)va_arg(ap, int));
		else vh_put('%');
	}
	va_end(ap);
	return 1;
}

/* --- execution address --------------------------------------------------------- */
static struct node execn, execi;
static int E0; /* given, or -1 */
struct node *symbol_try_get(const char *k) { ASSERT(k[0] == '.' && k[1] == 'e', "symbol_try_get: .exec"); return execn.ref ? &execn : NULL; }
/* by contract: an integer value, or nothing */
struct node *eval_int_free(struct node *n) { return n && n->type != node_type_reg ? &execi : NULL; }
struct node *eval_int(struct node *n) { return n && n->type != node_type_reg ? &execi : NULL; }
void node_free(struct node *n) { }
struct node *node_ref(struct node *n) { return n; }

/* --- loop contracts ------------------------------------------------------------ */
#ifdef VH_ABS
# if VH_F >= 2
#  define COVER2(t) COVER(t)
#  define COVER1(t) COVER(t)
# else
#  define COVER2(t)
#  define COVER1(t)
# endif
# if VH_F >= 3
#  define COVER3(t) COVER(t)
# else
#  define COVER3(t)
# endif
static unsigned arr1, arr2, arr3;
static _Bool vh_addressable(struct slist **l) {
	if (arr1++ == 0) {
		ASSERT(*l == sect.spans, "every span is looked at");
		if (vh_flag()) { ASSUME(fits(&X)); return 1; } /* all have been: so has X */
		*l = &NX;
		return 0;
	}
	ASSERT(fits(&X), "spans that do not fit are refused");
	ASSERT(*l == NX.next, "on to the next span");
	COVER1("another span");
	ASSUME(0);
	return 1;
}
static int vh_execd(void) { return E0 >= 0 || VH_F != 2 ? E0 : firstX && !afterX ? -1 : (int)(firstput & 0xffff); }
static _Bool vh_outinv(int exec) {
	return exec == vh_execd() && D.hits == (exists && (inX ? afterX : D.hits)) && D.hits <= 1 && (!D.hits || D.val == wval) &&
		D.ends == 0 && !D.line && !D.indata && D.k == 0 && !D.half;
}
static _Bool vh_span(struct slist **l, int *exec) {
	if (arr2++ == 0) {
		ASSERT(*l == sect.spans && *exec == E0 && D.hits == 0 && D.ends == 0 && !D.line && !D.indata, "output loop: initially");
		_Bool end = vh_flag();
		afterX = end;
		_Bool h = vh_flag();
		ASSUME(!h || exists);
		if (inX) ASSUME(h == afterX);
		if (end) ASSUME(h == exists); /* the span that holds W has been written */
		D.hits = h; if (h) D.val = wval;
		D.k = 0; D.line = 0; D.half = 0; D.indata = 0; D.recs = vh_nd();
		*exec = vh_execd();
		if (end) return 1;
		ASSERT(1, "");
		*l = &NX;
		D.type = h; /* not part of the state */
		sect.last_pc = h;
		return 0;
	}
	afterX = 1;
	ASSERT(*exec == vh_execd(), "output loop: execution address");
	ASSERT(D.hits == (inX ? 1 : (unsigned)sect.last_pc) && (!D.hits || D.val == wval), "output loop: the bytes of the span, each once, and no others");
	ASSERT(D.ends == 0 && !D.line && !D.indata, "output loop: complete records, not ended");
	ASSERT(*l == NX.next, "output loop: on to the next span");
	COVER2("span written");
	ASSUME(0);
	return 1;
}
static unsigned h0;
static _Bool vh_rec(struct section_span *span, unsigned *put_, unsigned *base, unsigned *size) {
#define RECINV (*put_ == X.put + *base && *base <= X.size && *size == X.size - *base && D.hits == h0 + (W - X.put < *base) && (!D.hits || D.val == wval) && !D.line && D.ends == 0)
	if (arr3++ == 0) {
		h0 = D.hits;
		ASSERT(span == &X && *base == 0 && RECINV, "record loop: initially");
		*base = vh_nd(); *put_ = vh_nd(); *size = vh_nd(); D.hits = vh_nd(); D.recs = vh_nd();
		if (D.hits) D.val = wval;
		D.line = 0; D.half = 0;
		ASSUME(RECINV);
		arr3 = 1; h0 = h0;
		sect.pc = *base;
		return *size == 0;
	}
	ASSERT(RECINV && *base > (unsigned)sect.pc, "record loop: the bytes so far, each once; progress");
	COVER3("record written");
	ASSUME(0);
	return 1;
}
static unsigned arr4, hb, bc, ba, b0;
static _Bool vh_byte(unsigned *i, unsigned nbytes, unsigned *sum, unsigned base) {
#define HDR (VH_F == 3 ? 3 : 4)
#define BYTEINV (*i <= nbytes && D.k == HDR + *i && !D.half && D.line && D.type == 1 && D.cnt == bc && D.addr == ba && (uint8_t)(D.sum - *sum) == 0 && D.ends == 0 && \
	D.hits == hb + (W - ba < *i) && (!D.hits || D.val == wval))
	if (arr4++ == 0) {
		hb = D.hits; bc = D.cnt; ba = D.addr;
		ASSERT(bc == nbytes + (VH_F == 3 ? 3 : 0) && ba == X.put + base && nbytes <= X.size - base && *i == 0 && BYTEINV, "byte loop: initially");
		*i = vh_nd(); *sum = vh_nd(); D.k = vh_nd(); D.sum = vh_nd(); D.hits = vh_nd();
		if (D.hits) D.val = wval;
		ASSUME(BYTEINV);
		b0 = *i;
		return *i >= nbytes;
	}
	ASSERT(BYTEINV && *i > b0, "byte loop: the bytes so far; progress");
	COVER3("byte written");
	ASSUME(0);
	return 1;
}
# define VERIFY_LOOP_srec_byte if (vh_byte(&i, nbytes, &sum, base)) break
# define VERIFY_LOOP_hex_byte if (vh_byte(&i, nbytes, &sum, base)) break
# define VERIFY_LOOP_addressable if (vh_addressable(&l)) break
# define VERIFY_LOOP_coco_span if (vh_span(&l, &exec_addr)) break
# define VERIFY_LOOP_srec_span if (vh_span(&l, &exec_addr)) break
# define VERIFY_LOOP_hex_span if (vh_span(&l, &exec_addr)) break
# define VERIFY_LOOP_srec_record if (vh_rec(span, &put, &base, &size)) break
# define VERIFY_LOOP_hex_record if (vh_rec(span, &put, &base, &size)) break
#endif
#include "vh_loops.h"
#define fopen vh_fopen
#define fclose vh_fclose
#define fputc vh_fputc
#define putc vh_fputc
#define fputs vh_fputs
#define fwrite vh_fwrite
#include "vh_printf.h"
#define fprintf VH_FPRINTF
#undef ferror
#define ferror vh_ferror
#include "output.c"

static const int sizes[][3] = { {0}, {1}, {33}, {2, 3}, {2, 32}, {1} };
static void common(int kind) {
	G = (struct vh_ghost){0};
	memset(&D, 0, sizeof D);
	sect = (struct section){0};
	coalesced = sectfreed = 0;
	F.openfail = vh_flag(); F.wfail = vh_flag(); F.closefail = vh_flag(); F.opened = F.closed = 0;
	/* execution address: none, register (no value), or a number */
	execn = (struct node){ .type = node_type_int, .ref = kind == 0 ? 0 : 5 };
	if (kind == 1) execn.type = node_type_reg;
	execi = (struct node){ .type = node_type_int, .ref = 5, .data = { .as_int = vh_nd() } };
	ASSUME(execi.data.as_int >= 0);
	E0 = kind == 2 ? (int)(execi.data.as_int & 0xffff) : -1;
	W = VH_16BIT ? vh_range(0, 0xffff) : vh_range(0, 0xffffffff);
	exists = 0; nonempty = 0;
}
static void finish(int kind, _Bool unfit) {
	_Bool err = !VH_NOERR;
	if (VH_16BIT && unfit) {
		CHECK("output: an image that does not fit is reported", err);
		CHECK("output: and not written", F.opened == 0);
		CHECK("output: spans released", sectfreed == 1);
		return;
	}
	CHECK("output: failure to open, write or close is reported, nothing else is", err == (F.openfail || F.wfail || F.closefail));
	CHECK("output: opened and closed", F.opened == !F.openfail && F.closed == F.opened);
	CHECK("output: spans released", sectfreed == coalesced);
	if (F.openfail) return;
	CHECK("output: every byte at its address, exactly once, and no others", D.hits == exists && (!exists || D.val == wval));
#if VH_F == 1
	CHECK("dragondos: whole header", D.n >= 9);
	CHECK("dragondos: execution address", D.exec == (E0 >= 0 ? (unsigned)E0 : (firstput & 0xffff)));
#elif VH_F == 2
	CHECK("coco: ends with the trailer", D.ends == 1 && !D.indata && D.k == 0);
	if (E0 >= 0 || nonempty) CHECK("coco: execution address", D.exec == (E0 >= 0 ? (unsigned)E0 : (firstput & 0xffff)));
#elif VH_F >= 3
	CHECK("records: end with the end record", D.ends == 1 && !D.line);
	CHECK("records: execution address", D.exec == (E0 >= 0 ? (unsigned)E0 : 0));
#endif
}
static void run(void) {
	const char *fn = "out";
#if VH_F == 0
	output_binary(fn);
#elif VH_F == 1
	output_dragondos(fn);
#elif VH_F == 2
	output_coco(fn);
#elif VH_F == 3
	output_motorola_srec(fn);
#else
	output_intel_hex(fn);
#endif
}
#ifdef VH_ABS
static void abst(int kind, _Bool empty) {
	common(kind);
	X = (struct section_span){ .ref = 1, .put = vh_range(0, UINT32_MAX), .size = vh_range(1, UINT32_MAX), .data = xdata };
	ASSUME(X.size <= UINT32_MAX - X.put);
	NX.data = &X;
	NX.next = (struct slist *)(opaque + 1);
	nonempty = !empty;
	firstput = 0;
	arr1 = arr2 = arr3 = arr4 = 0;
	if (VH_F <= 1) {
		/* a single span */
		NX.next = NULL;
		sect.spans = empty ? NULL : &NX;
		firstput = empty ? 0 : X.put;
		inX = !empty && (VH_F == 0 ? W < X.size : W >= X.put && W - X.put < X.size);
		exists = inX;
		if (VH_F == 0 && W >= 0x10000) ASSUME(0);
		if (inX) wval = xdata[VH_F == 0 ? W : (W - X.put) & 0xffff];
	} else {
		sect.spans = empty ? NULL : (struct slist *)opaque;
		inX = !empty && W >= X.put && W - X.put < X.size;
		exists = inX || (!empty && vh_flag());
		wval = vh_nd();
		if (inX) wval = xdata[(W - X.put) & 0xffff];
		firstX = vh_flag();
		firstput = firstX ? X.put : vh_range(0, 0xffff);
		if (empty) firstput = 0;
	}
	run();
	_Bool unfit = !empty && !fits(&X);
	finish(kind, unfit);
#if VH_F == 1
	if (!F.openfail && !unfit) { CHECK("dragondos: address and length", D.addr == (empty ? 0 : X.put) && D.size == (empty ? 0 : X.size) && D.n == 9 + (empty ? 0 : X.size)); }
#elif VH_F == 0
	if (!F.openfail) CHECK("binary: length", D.n == (empty ? 0 : X.size));
#endif
}
#endif
#ifndef VH_ABS
static void conc(int kind, int which) {
	common(kind);
	int sz[VH_NS] = {0}; nsp = 0;
#ifdef VH_CBMC
	for (int i = 0; i < VH_NS; i++) sz[i] = sizes[which][i];
#else
	int mn = vh_range(0, VH_NS);
	for (int i = 0; i < mn; i++) sz[i] = vh_range(1, 100);
#endif
#ifdef VH_CBMC
	uint64_t at = which & 1 ? 0xffde : 0x1f0;
#else
	uint64_t at = vh_range(0, 0x10020);
#endif
	_Bool unfit = 0;
	for (int i = 0; i < VH_NS && sz[i]; i++) {
		sp[i] = (struct section_span){ .ref = 1, .put = at, .size = sz[i], .data = data[i] };
		for (int j = 0; j < sz[i]; j++) data[i][j] = vh_range(0, 255);
		nd[i].data = &sp[i]; nd[i].next = NULL;
		if (i) nd[i - 1].next = &nd[i];
		if (!fits(&sp[i])) unfit = 1;
		if (VH_F == 0 ? W < sz[i] : W >= at && W - at < sz[i]) { exists = 1; wval = data[i][VH_F == 0 ? W : W - at]; }
#ifdef VH_CBMC
		at += sz[i] + 1;
#else
		at += sz[i] + vh_range(1, 0x400);
#endif
		nsp++;
		if (VH_F <= 1) break;
	}
	sect.spans = nsp ? &nd[0] : NULL;
	nonempty = nsp > 0;
	firstput = nsp ? sp[0].put : 0;
	run();
	finish(kind, unfit);
#if VH_F == 1
	if (!F.openfail && !unfit) CHECK("dragondos: address and length", D.addr == (nsp ? sp[0].put : 0) && D.size == (nsp ? sp[0].size : 0) && D.n == 9 + (nsp ? sp[0].size : 0));
#elif VH_F == 0
	if (!F.openfail) CHECK("binary: length", D.n == (nsp ? sp[0].size : 0));
#endif
}
#endif
void vh_main(void) {
#ifdef VH_ABS
	int k = VH_F < 2 ? vh_range(0, 5) : vh_range(0, 5);
	for (int kind = 0; kind < 3; kind++) for (int e = 0; e < 2; e++) if (k == kind * 2 + e) abst(kind, e);
	if (k == 4) COVER("output");
#elif defined(VH_CBMC)
	int k = vh_range(0, 5);
	for (int i = 0; i < 6; i++) if (k == i) conc(i % 3, i);
	if (k == 5) COVER("output");
#else
	conc(vh_range(0, 2), 0);
#endif
}
