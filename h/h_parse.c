/* C17: numbers and sizes, every string up to a length over an alphabet. */
#include <errno.h>
#include <float.h>
#include <inttypes.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include "vf.h"
#include "humansize.h"
#include "parsenum.h"
typedef unsigned __int128 u128; typedef __int128 i128;
#define BIG ((i128)1 << 120)

/* ---- reference: what a string denotes ---- */
static int sp(char c) { return (c == ' ' || (c >= '\t' && c <= '\r')); }
static int dig(char c) { return (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99); }
/* 0: an integer (value v, saturating); 1: not one.  base 0 means C notation. */
static int
ref_int(const char * s, int base, i128 * v, const char ** end)
{
	int neg = 0, n = 0; i128 x = 0;
	while (sp(*s)) s++;
	if (*s == '-' || *s == '+') neg = *s++ == '-';
	if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && dig(s[2]) < 16) { s += 2; base = 16; }
	else if (base == 0 && s[0] == '0') base = 8;
	else if (base == 0) base = 10;
	for (; dig(*s) < base; s++, n++) { x = x * base + dig(*s); if (x > BIG) x = BIG; }
	*v = neg ? -x : x; *end = s;
	return (n == 0);
}
static int
ci(const char * s, const char * w) { size_t i; for (i = 0; w[i]; i++) if ((s[i] | 32) != w[i]) return (0); return (1); }
/* kind: 0 number, 1 syntax, 2 nan */
static int
ref_float(const char * s, double * v, const char ** end)
{
	const char * p, * b; int neg = 0, n = 0, hex = 0; char buf[200];
	while (sp(*s)) s++;
	b = s;
	if (*s == '-' || *s == '+') neg = *s++ == '-';
	if (ci(s, "infinity")) { *v = neg ? -INFINITY : INFINITY; *end = s + 8; return (0); }
	if (ci(s, "inf")) { *v = neg ? -INFINITY : INFINITY; *end = s + 3; return (0); }
	if (ci(s, "nan")) { s += 3; if (*s == '(') { p = s + 1; while (dig(*p) < 99 || *p == '_') p++; if (*p == ')') s = p + 1; } *end = s; return (2); }
	p = s;
	if (p[0] == '0' && (p[1] | 32) == 'x' && (dig(p[2]) < 16 || (p[2] == '.' && dig(p[3]) < 16))) { hex = 1; p += 2; }
	while (dig(*p) < (hex ? 16 : 10)) p++, n++;
	if (*p == '.') { const char * q = p + 1; int m = 0; while (dig(*q) < (hex ? 16 : 10)) q++, m++; if (n || m) { p = q; n += m; } }
	if (n == 0) return (1);
	if ((*p | 32) == (hex ? 'p' : 'e')) { const char * q = p + 1; if (*q == '-' || *q == '+') q++; if (dig(*q) < 10) { while (dig(*q) < 10) q++; p = q; } }
	if ((size_t)(p - b) >= sizeof(buf)) vf_internal("long");
	memcpy(buf, b, (size_t)(p - b)); buf[p - b] = 0;
	*v = strtod(buf, NULL);	/* grammar is ours; the value is libc's */
	*end = p;
	if (isinf(*v)) return (3);	/* too large for the type */
	if (fabs(*v) < DBL_MIN && strpbrk(buf, "123456789") && !(hex && *v != 0)) { const char * q; for (q = buf; *q && (*q | 32) != 'e'; q++) if (*q >= '1' && *q <= '9') return (4); }
	return (0);
}
static int
ref_size(const char * s, uint64_t * v)
{
	u128 x = 0, m = 1; int n = 0; static const char u[] = "kMGTPE"; const char * q;
	for (; *s >= '0' && *s <= '9'; s++, n++) { x = x * 10 + (u128)(*s - '0'); if (x >> 70) x = (u128)1 << 70; }
	if (!n) return (1);
	if (*s == ' ') s++;
	if (*s && (q = strchr(u, *s))) { int i; for (i = 0; i <= q - u; i++) m *= 1000; s++; }
	if (*s == 'B') s++;
	if (*s) return (1);
	if (x * m > UINT64_MAX) return (1);
	*v = (uint64_t)(x * m);
	return (0);
}
/* ---- comparing ---- */
static void
verdict(const char * s, const char * what, int got, int err, int want, int equal, const char * gv)
{
	vf_note("\"%s\" as %s: %s, errno %d", s, what, got ? "rejected" : "accepted", err);
	vf_eval();
	if (want == 0) {
		VF_CHECK(got == 0, "rejected", "\"%s\" denotes a number in the range of %s but is rejected (errno %d)", s, what, err);
		VF_CHECK(err == 0, "errno", "\"%s\" is accepted as %s, yet errno is %d", s, what, err);
		VF_CHECK(equal, "value", "\"%s\" as %s gives %s", s, what, gv);
	} else {
		VF_CHECK(got != 0, "accepted", "\"%s\" does not denote a number in the range of %s but is accepted as %s", s, what, gv);
		VF_CHECK(err == want, "cause", "\"%s\" as %s: cause reported as %d, expected %d", s, what, err, want);
	}
	vf_outcome((uint64_t)want * 31 + vf_hstr(gv));
}
static char gv[200];
#define INT(T, MIN, MAX, BASE, TRAIL, CALL) do { T x_ = 0; const char * e_; i128 v_ = 0; int r_, g_, w_, er_; errno = (int)(s[0] & 1) * EINVAL; g_ = CALL; er_ = errno; \
	r_ = ref_int(s, BASE, &v_, &e_); \
	w_ = r_ || (!(TRAIL) && *e_) ? EINVAL : (v_ < (i128)(MIN) || v_ > (i128)(MAX)) ? ERANGE : 0; \
	snprintf(gv, sizeof(gv), "%jd", (intmax_t)x_); \
	verdict(s, #CALL, g_, er_, w_, (i128)x_ == v_, gv); } while (0)
#define FLT(T, MIN, MAX, TRAIL, CALL) do { T x_ = 0; const char * e_ = s; double v_ = 0; int r_, g_, w_, er_; errno = (int)(s[0] & 1) * ERANGE; g_ = CALL; er_ = errno; \
	r_ = ref_float(s, &v_, &e_); \
	if (r_ == 4) break; w_ = r_ == 1 || (!(TRAIL) && *e_) ? EINVAL : r_ == 2 || r_ == 3 || v_ < (MIN) || v_ > (MAX) ? ERANGE : 0; \
	snprintf(gv, sizeof(gv), "%.17g", (double)x_); \
	verdict(s, #CALL, g_, er_, w_, (T)v_ == x_ , gv); } while (0)
static void
ints(const char * s)
{
	/* as used by the command line */
	INT(int, 10, 40, 0, 0, PARSENUM(&x_, s, 10, 40));
	INT(uint32_t, 1, 32, 0, 0, PARSENUM(&x_, s, 1, 32));
	INT(uint32_t, 1, 2048, 0, 0, PARSENUM(&x_, s, 1, 2048));
	/* the widths and bounds of the types */
	INT(uint8_t, 0, UINT8_MAX, 0, 0, PARSENUM(&x_, s));
	INT(uint8_t, 3, UINT8_MAX, 0, 0, PARSENUM(&x_, s, 3, 300));
	INT(uint16_t, 0, UINT16_MAX, 0, 0, PARSENUM(&x_, s, 0, 70000));
	INT(uint32_t, 0, UINT32_MAX, 0, 0, PARSENUM(&x_, s));
	INT(uint64_t, 0, UINT64_MAX, 0, 0, PARSENUM(&x_, s));
	INT(size_t, 0, SIZE_MAX, 0, 0, PARSENUM(&x_, s));
	INT(int, -7, 100, 0, 0, PARSENUM(&x_, s, -7, 100));
	INT(int64_t, INT64_MIN, INT64_MAX, 0, 0, PARSENUM(&x_, s, INT64_MIN, INT64_MAX));
	INT(int8_t, -128, 127, 0, 0, PARSENUM(&x_, s, -128, 127));
	INT(uint64_t, 5, 4294967296, 0, 0, PARSENUM(&x_, s, 5, 4294967296));
	INT(uint64_t, 0, 12, 0, 0, PARSENUM(&x_, s, -3, 12));
	INT(uint32_t, 0, UINT32_MAX, 16, 0, PARSENUM_EX(&x_, s, 16, 0));
	INT(uint32_t, 0, UINT32_MAX, 10, 1, PARSENUM_EX(&x_, s, 10, 1));
	INT(int, -20, 20, 8, 0, PARSENUM_EX(&x_, s, -20, 20, 8, 0));
	INT(int, -1000, 1000, 10, 1, PARSENUM_EX(&x_, s, -1000, 1000, 10, 1));
}
static void
floats(const char * s)
{
	FLT(double, 0, 0.5, 0, PARSENUM(&x_, s, 0, 0.5));
	FLT(double, 0, INFINITY, 0, PARSENUM(&x_, s, 0, INFINITY));
	FLT(double, -INFINITY, INFINITY, 0, PARSENUM(&x_, s));
	FLT(double, -2.5, 12, 0, PARSENUM(&x_, s, -2.5, 12));
	FLT(float, 0, 100, 0, PARSENUM(&x_, s, 0, 100));
	FLT(double, 0, 1, 1, PARSENUM_EX(&x_, s, 0, 1, 0, 1));
}
static void
sizes(const char * s)
{
	uint64_t x = 77, v = 0; int g, r;
	g = humansize_parse(s, &x); r = ref_size(s, &v);
	vf_note("\"%s\" as a size", s); vf_eval();
	if (r) VF_CHECK(g != 0, "accepted", "\"%s\" is not a size below 2^64 but is accepted as %ju", s, (uintmax_t)x);
	else {
		VF_CHECK(g == 0, "rejected", "\"%s\" is a size but is rejected", s);
		VF_CHECK(x == v, "value", "\"%s\" gives %ju, expected %ju", s, (uintmax_t)x, (uintmax_t)v);
	}
	vf_outcome(r ? 1 : v);
}
/* every string over an alphabet up to a length */
static void
all(const char * alpha, int maxlen, int fixed, void (*f)(const char *))
{
	char s[24]; int n = (int)strlen(alpha), len, i, k; int d[24];
	/* the first characters are decisions, the rest is enumerated here */
	len = vf_choose("length", maxlen + 1);
	for (i = 0; i < len && i < fixed; i++) s[i] = alpha[vf_choose("char", n)];
	s[len] = 0;
	for (k = i; k < len; k++) { d[k] = 0; s[k] = alpha[0]; }
	for (;;) {
		f(s); vf_seen(vf_hstr(s));
		for (k = len - 1; k >= i; k--) { if (++d[k] < n) { s[k] = alpha[d[k]]; break; } d[k] = 0; s[k] = alpha[0]; }
		if (k < i) break;
	}
	if (len == maxlen && s[0] == alpha[1]) vf_sample("every string of length %d over \"%s\", ending with \"%s\"", len, alpha, s);
}
static void int_strings(void) { all("0189-+ xa.", vf_tier ? 7 : 6, 2, ints); }
static void int_strings2(void) { all("012347-", vf_tier ? 8 : 7, 2, ints); }
static void float_strings(void) { all("0159-+. exp", vf_tier ? 7 : 6, 2, floats); }
static void float_words(void) { all("infaty(1)-", vf_tier ? 7 : 6, 3, floats); }
static void size_strings(void) { all("0129 kMEBx", vf_tier ? 8 : 7, 2, sizes); }
static void size_strings2(void) { all("18 GTPEBK-", 5, 2, sizes); }
static void size_chars(void) { char s[6]; int a = 1 + vf_choose("char", 255), b; for (b = 0; b < 256; b++) { s[0] = (char)a; s[1] = (char)b; s[2] = 0; sizes(s); ints(s); floats(s); s[0] = '1'; s[1] = (char)a; s[2] = (char)b; s[3] = 0; sizes(s); ints(s); floats(s); s[0] = '9'; s[1] = ' '; s[2] = (char)a; s[3] = (char)b; s[4] = 0; sizes(s); vf_seen(vf_hstr(s)); } }
/* numbers at the boundaries of types, in all notations, with decorations */
static void
putnum(char * s, u128 v, int base, int neg, int plus)
{
	char t[140]; int n = 0;
	if (v == 0) t[n++] = '0';
	for (; v; v /= (unsigned)base) t[n++] = "0123456789abcdef"[v % (unsigned)base];
	if (neg) *s++ = '-'; else if (plus) *s++ = '+';
	if (base == 16) { *s++ = '0'; *s++ = 'x'; } else if (base == 8) *s++ = '0';
	while (n) *s++ = t[--n];
	*s = 0;
}
static void
edges(void)
{
	int k = vf_choose("exponent", 84), b = vf_choose("base", 3), d, neg, dec; char s[400], t[420]; static const char * const pre[] = { "", " ", "\t \n", "", "\v", "\f\r", " \v" }, * const post[] = { "", "", "", "x", "", "", "" }; static const char * const suf[] = { "", "B", "k", " k", "kB", "M", "G", "T", "P", "E", " EB", "EE", " " }; int q;
	static const int bases[] = { 10, 16, 8 };
	for (d = -40; d <= 40; d++) for (neg = 0; neg < 2; neg++) {
		u128 v; if (k < 64 + 6) v = (u128)1 << k; else { int i; for (v = 1, i = 0; i < k - 64; i++) v *= 10; }
		if (d < 0 && v < (u128)-d) continue;
		v += (u128)(i128)d;
		putnum(t, v, bases[b], neg, d == 3);
		for (dec = 0; dec < 7; dec++) { snprintf(s, sizeof(s), "%s%s%s", pre[dec], t, post[dec]); ints(s); if (b == 0) floats(s); vf_seen(vf_hstr(s)); }
		if (b == 0) for (q = 0; q < NELEM(suf); q++) { snprintf(s, sizeof(s), "%s%s", t, suf[q]); sizes(s); vf_seen(vf_hstr(s)); }
		/* the largest accepted with each suffix */
		if (b == 0 && k < 7) { u128 m = 1; int i; for (i = 0; i < k; i++) m *= 1000; putnum(t, ((u128)UINT64_MAX / m) + (u128)(i128)d, 10, 0, 0); for (q = 0; q < NELEM(suf); q++) { snprintf(s, sizeof(s), "%s%s", t, suf[q]); sizes(s); } snprintf(s, sizeof(s), "000%s%cB", t, " kMGTPE"[k]); sizes(s); }
	}
	/* long strings of digits */
	if (k == 0) for (d = 1; d < 90; d++) { memset(s, b == 0 ? '9' : b == 1 ? '0' : '1', (size_t)d); s[d] = 0; ints(s); floats(s); sizes(s); s[d] = '1'; s[d + 1] = 0; ints(s); floats(s); sizes(s); strcpy(s + d + 1, "E"); sizes(s); }
	if (k == 64 && b == 0) vf_sample("2^64 +- 40 in bases 10, 16, 8 with signs, spaces and suffixes");
}
static const struct vf_scn S[] = {
	{ "edges", edges, 0, { 0, 0 }, 0, 0 },
	{ "int_strings", int_strings, 0, { 0, 0 }, 0, 0 }, { "int_strings2", int_strings2, 0, { 0, 0 }, 0, 0 },
	{ "float_strings", float_strings, 0, { 0, 0 }, 0, 0 }, { "float_words", float_words, 0, { 0, 0 }, 0, 0 },
	{ "size_strings", size_strings, 0, { 0, 0 }, 0, 0 }, { "size_strings2", size_strings2, 0, { 0, 0 }, 0, 0 }, { "size_chars", size_chars, 0, { 0, 0 }, 0, 0 },
	{ NULL, NULL, 0, { 0, 0 }, 0, 0 } };
int main(int argc, char ** argv) { return (vf_main(argc, argv, S)); }
