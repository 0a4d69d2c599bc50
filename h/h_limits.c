/* C06 limits on decryption, C07 choice of parameters, C18 reported parameters. */
#include "env_codec.h"
#include <sys/mman.h>
#include <inttypes.h>
#include <math.h>
#include <unistd.h>
typedef unsigned __int128 u128;
#define PW "pw"
static uint8_t SALT[32];
static const uint8_t MSG[20] = "twenty bytes of data";

/* ---- what goes to standard error ---- */
static int capfd = -1, savefd = -1; static char cap[8192];
static void cap_begin(void)
{
	fflush(stderr);
	if (capfd < 0) { capfd = memfd_create("err", 0); savefd = dup(2); }
	ftruncate(capfd, 0); lseek(capfd, 0, SEEK_SET); dup2(capfd, 2);
}
static size_t cap_end(void)
{
	ssize_t n;
	fflush(stderr); dup2(savefd, 2);
	memset(cap, 0, sizeof(cap)); n = pread(capfd, cap, sizeof(cap) - 1, 0);
	return (n > 0 ? (size_t)n : 0);
}
/* A file which is right under the stubbed key derivation. */
static size_t
mk(uint8_t * f, unsigned logN, uint32_t r, uint32_t p)
{
	uint8_t dk[64]; int j;
	memcpy(f, "scrypt", 6); f[6] = 0; f[7] = (uint8_t)logN;
	for (j = 0; j < 4; j++) { f[8 + j] = (uint8_t)(r >> (24 - 8 * j)); f[12 + j] = (uint8_t)(p >> (24 - 8 * j)); }
	memcpy(f + 16, SALT, 32); ref_fixsum(f);
	stub_kdf(PW, 2, SALT, 32, logN < 64 ? 1ULL << logN : 0, r, p, dk, 64);
	ref_hmac(dk + 32, 32, f, 64, f + 64);
	ref_aesctr(dk, 32, 0, 0, MSG, f + 96, 20);
	ref_hmac(dk + 32, 32, f, 116, f + 116);
	return (148);
}
static int valid(unsigned logN, uint32_t r, uint32_t p) { return (logN >= 1 && logN <= 63 && r && p && (uint64_t)r * p < (1u << 30)); }
static u128 memneed(unsigned logN, uint32_t r) { return ((u128)128 * r) << logN; }
static long double opsneed(unsigned logN, uint32_t r, uint32_t p) { return (ldexpl((long double)((uint64_t)r * p * 4), (int)logN)); }
static const uint32_t rs[] = { 1, 8, 2, 3, 7, 31, 32, 33, 1000, 4095, 32767, 32768, 65536, (1u << 29) - 1, 1u << 29, (1u << 30) - 1, 1u << 30, (1u << 30) + 1, 1u << 31, 0xffffffffu, 0, 5, 6, 9, 11, 13, 100, 255, 256, 257, 12345, 1u << 20, 1u << 24 };
#define NRS (vf_tier ? NELEM(rs) : 21)

#if PROP == 6 || PROP == 7
static unsigned turn;
static const size_t mms[] = { 0, 12345, 1048576, SIZE_MAX, 1ULL << 33 };
static const double fracs[] = { 0.3, 0.125, 0.5, 1e-3 };
#endif
#if PROP == 6
/* api: 0 buf, 1 file, 2 prep+copy */
static void
one1(int api, unsigned logN, uint32_t r, uint32_t p, size_t mem, double opps, double maxtime, int force, int verbose)
{
	uint8_t f[200]; size_t n; size_t mm = mms[turn % NELEM(mms)]; double fr = fracs[turn % NELEM(fracs)]; struct scryptenc_params P = { .maxmem = mm, .maxmemfrac = fr, .maxtime = maxtime, .logN = 0, .r = 0, .p = 0 }; uint8_t * o; size_t ol; int rc, want, big, slow;
	long double ops = (long double)(opps * maxtime), need = opsneed(logN, r, p);
	turn++;
	n = mk(f, logN, r, p);
	env_setflags(verbose);
	env_memlimit = mem; env_opps = opps; env_memcalls = env_perfcalls = env_kdfcalls = 0;
	rc = dec_any(api, f, n, (const uint8_t *)PW, 2, force, 0, &o, &ol, &P);
	vf_note("logN %u r %u p %u memory limit %zu speed %g time limit %g%s%s interface %d -> %d", logN, r, p, mem, opps, maxtime, force ? " forced" : "", verbose ? " verbose" : "", api, rc);
	vf_eval();
	big = memneed(logN, r) > mem; slow = need > ops;
	if (!valid(logN, r, p)) want = SCRYPT_EINVAL;
	else if (force) want = SCRYPT_OK;
	else want = big && slow ? SCRYPT_EBIGSLOW : big ? SCRYPT_ETOOBIG : slow ? SCRYPT_ETOOSLOW : SCRYPT_OK;
	VF_CHECK(rc == want, "verdict", "returned %d, expected %d (needs %s than the memory limit, %s than the time limit)", rc, want, big ? "more" : "no more", slow ? "more" : "no more");
	if (want != SCRYPT_OK) VF_CHECK(env_kdfcalls == 0, "kdf-started", "key derivation started although refused");
	else {
		VF_CHECK(env_kdfcalls == 1 && env_kdf_N == 1ULL << logN && env_kdf_r == r && env_kdf_p == p && env_kdf_buflen == 64, "kdf-args", "key derivation called %d times with N %ju r %u p %u", env_kdfcalls, (uintmax_t)env_kdf_N, env_kdf_r, env_kdf_p);
		VF_CHECK(ol == 20 && !memcmp(o, MSG, 20), "data", "wrong data");
		VF_CHECK(P.logN == (int)logN && P.r == r && P.p == p, "params", "returned parameters differ from the file's");
	}
	if (force) VF_CHECK(env_memcalls == 0 && env_perfcalls == 0, "measured", "limits were measured despite the override");
	else if (valid(logN, r, p)) {
		VF_CHECK(env_memcalls >= 1 && env_perfcalls >= 1, "unmeasured", "limits were not measured");
		VF_CHECK(env_maxmem == mm && env_frac == fr, "asked", "limit of %zu bytes or %g of the memory asked for, %zu or %g measured", mm, fr, env_maxmem, env_frac);
	}
	vf_seen(vf_hash2(vf_hash2(logN * 5 + (uint64_t)api, vf_hash2(r, p)), vf_hash2(mem, vf_hash2((uint64_t)(opps * 1000), (uint64_t)(maxtime * 1000) * 2 + (uint64_t)force))));
	vf_outcome((uint64_t)rc * 4 + (uint64_t)(big * 2 + slow));
	free(o);
}
static void
one(int api, unsigned logN, uint32_t r, uint32_t p, size_t mem, double opps, double maxtime, int force)
{
	one1(api, logN, r, p, mem, opps, maxtime, force, 0);
	one1(api, logN, r, p, mem, opps, maxtime, force, 1);
}
static void
bounds(void)
{
	unsigned logN = (unsigned)vf_choose("logN", 66); uint32_t r = rs[vf_choose("r", NRS)]; int pi, api, k, j; u128 need;
	size_t mems[6]; int nm = 0;
	if (logN >= 64) logN = logN == 64 ? 64 : 255;
	env_reset(); env_stub(); turn = 0; fill(SALT, 32, 3);
	need = memneed(logN & 63, r);
	mems[nm++] = 1048576; mems[nm++] = SIZE_MAX;
	if (need <= SIZE_MAX && need > 0) { mems[nm++] = (size_t)need; mems[nm++] = (size_t)need - 1; if ((size_t)need < SIZE_MAX) mems[nm++] = (size_t)need + 1; }
	if (need > SIZE_MAX) mems[nm++] = (size_t)need;	/* a wrapped product */
	for (pi = 0; pi < NRS; pi++) {
		uint32_t p = rs[pi]; long double on = opsneed(logN & 63, r, p); double e = (double)on, ops[7]; int no = 0;
		ops[no++] = e > 0 ? e : 1; ops[no++] = e * (1 - 1e-9); ops[no++] = e * (1 + 1e-9); ops[no++] = e / 2; ops[no++] = 0; ops[no++] = 1e300; ops[no++] = 2147483648.0;
		for (k = 0; k < nm; k++) for (j = 0; j < no; j++) {
			double o = ops[j];
			if (o != e && o > 0 && fabsl((long double)o / on - 1) < 1e-12L) continue;	/* beyond double's resolution */
			if (o == e && (long double)e != on) continue;
			api = (k + j) % 3;
			/* the product speed x time, split exactly */
			one(api, logN, r, p, mems[k], j % 2 ? o / 4 : o, j % 2 ? 4.0 : 1.0, 0);
			if (j < 2) one((api + 1) % 3, logN, r, p, mems[k], o, 1.0, 1);
		}
		if (valid(logN, r, p) && pi == 1) { one(0, logN, r, p, SIZE_MAX, 1.0, INFINITY, 0); one(1, logN, r, p, SIZE_MAX, e * 2, 0.0, 0); one(2, logN, r, p, SIZE_MAX, e / 8, 8.5, 0); }
	}
	if (logN == 20 && r == 8) vf_sample("logN 20 r 8: limits at, just below and just above 128Nr = %ju", (uintmax_t)need);
}
/* every failure of the measurements */
static void
fails(void)
{
	int api = vf_choose("api", 3), what = vf_choose("what", 4), force = vf_choose("force", 2), rc, want; uint8_t f[200]; size_t n, ol; uint8_t * o; struct scryptenc_params P = PARAMS(0, 0, 0);
	env_reset(); env_stub(); turn = 0; env_setflags(vf_choose("verbose", 2)); n = mk(f, 10, 8, 1); env_memlimit = SIZE_MAX; env_opps = 1e12;
	if (what == 0) { env_memfail = 1; want = SCRYPT_ELIMIT; }
	else if (what == 1) { env_perf_rc = SCRYPT_ECLOCK; want = SCRYPT_ECLOCK; }
	else if (what == 2) { env_perf_rc = SCRYPT_EKEY; want = SCRYPT_EKEY; }
	else { env_kdf_mode = 2; want = SCRYPT_EKEY; }
	if (force && what < 3) want = SCRYPT_OK;
	rc = dec_any(api, f, n, (const uint8_t *)PW, 2, force, 0, &o, &ol, &P); vf_eval();
	VF_CHECK(rc == want, "code", "measurement failure %d%s: returned %d, expected %d", what, force ? " (forced)" : "", rc, want);
	VF_CHECK(want != SCRYPT_OK ? env_kdfcalls == (what == 3) : env_kdfcalls == 1, "kdf-started", "key derivation called %d times", env_kdfcalls);
	vf_seen(vf_trace_hash()); vf_outcome((uint64_t)rc); free(o);
}
/* every (logN, r, p) byte combination near the edge of validity */
static void
validity(void)
{
	unsigned logN = (unsigned)vf_choose("logN", 256); int i, j, force; uint64_t r, p;
	env_reset(); env_stub(); turn = 0; fill(SALT, 32, 3);
	for (force = 0; force < 2; force++) for (i = 0; i <= 32; i++) for (j = 0; j <= 32; j++) {
		int d; for (d = -1; d <= 1; d++) {
			r = i ? (1ULL << (i - 1)) + (uint64_t)(i > 2 ? d : 0) : 0; p = j ? (1ULL << (j - 1)) + (uint64_t)(j > 2 ? -d : 0) : 0;
			if (r > 0xffffffff || p > 0xffffffff) continue;
			if (!vf_tier && (logN > 66 && logN < 254 && (i * j) % 7)) continue;
			one((i + j) % 3, logN, (uint32_t)r, (uint32_t)p, SIZE_MAX, 1e200, 1.0, force);
		}
	}
}
static const struct vf_scn S[] = { { "boundaries", bounds, 0, { 0, 0 }, 0, 0 }, { "measurement_failures", fails, 0, { 0, 0 }, 0, 0 }, { "validity", validity, 0, { 0, 0 }, 0, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#elif PROP == 7
static int
encit(int api, struct scryptenc_params * P, int verbose, int force, uint8_t ** o, size_t * ol)
{
	if (verbose) {
		int rc; uint8_t * q = galloc(148);
		rc = scryptenc_buf(MSG, 20, q, (const uint8_t *)PW, 2, P, 1, force);
		gcheck(q, 148, "output"); *o = malloc(148); memcpy(*o, q, 148); *ol = 148; gfree(q);
		return (rc);
	}
	return (enc_any(api, MSG, 20, (const uint8_t *)PW, 2, force, 0, o, ol, P));
}
static void
header_ok(const uint8_t * o, size_t ol, int logN, uint32_t r, uint32_t p)
{
	uint8_t want[148], s[32]; int i;
	VF_CHECK(ol == 148, "length", "output length %zu", ol);
	for (i = 0; i < 32; i++) s[i] = (uint8_t)(7 * i + 11);
	memcpy(SALT, s, 32);
	mk(want, (unsigned)logN, r, p);
	VF_CHECK(!memcmp(o, want, 48), "header", "header does not record logN %d r %u p %u: %s", logN, r, p, hex(o, 48));
	VF_CHECK(!memcmp(o, want, 148), "file", "file does not match its own parameters");
	VF_CHECK(env_kdfcalls == 1 && env_kdf_N == 1ULL << logN && env_kdf_r == r && env_kdf_p == p && env_kdf_buflen == 64 && env_kdf_saltlen == 32 && !memcmp(env_kdf_salt, s, 32), "kdf-args", "key derivation called %d times with N %ju r %u p %u", env_kdfcalls, (uintmax_t)env_kdf_N, env_kdf_r, env_kdf_p);
}
static void
pick1(int api, size_t mem, double opps, double maxtime, int flags)
{
	size_t mm = mms[++turn % NELEM(mms)]; double fr = fracs[turn % NELEM(fracs)];
	struct scryptenc_params P = { .maxmem = mm, .maxmemfrac = fr, .maxtime = maxtime, .logN = 0, .r = 0, .p = 0 }; uint8_t * o; size_t ol; int rc, logN; double ops = opps * maxtime; uint32_t p; long double x;
	if (ops < 32768) ops = 32768;
	env_memlimit = mem; env_opps = opps; env_saltctr = 0; env_kdfcalls = env_memcalls = env_perfcalls = 0;
	vf_note("memory limit %zu, speed %g, time limit %g, interface %d%s%s", mem, opps, maxtime, api, flags & 1 ? ", verbose" : "", flags & 2 ? ", forced" : "");
	env_setflags(flags & 1);
	rc = enc_any(api, MSG, 20, (const uint8_t *)PW, 2, flags >> 1, 0, &o, &ol, &P); vf_eval();
	VF_CHECK(rc == SCRYPT_OK, "rc", "returned %d", rc);
	VF_CHECK(env_maxmem == mm && env_frac == fr, "asked", "limit of %zu bytes or %g of the memory asked for, %zu or %g measured", mm, fr, env_maxmem, env_frac);
	/* which limit binds */
	if (ops < (double)mem / 32) {
		p = 1;
		for (logN = 1; logN < 62 && ldexp(32.0, logN + 1) <= ops; logN++) continue;
		if (ldexp(32.0, 63) <= ops) logN = 63;
	} else {
		for (logN = 1; logN < 62 && ((u128)1024 << (logN + 1)) <= mem; logN++) continue;
		x = (long double)ops / 4 / ldexpl(1, logN);
		if (x > 0x3fffffff) x = 0x3fffffff;
		p = (uint32_t)(x / 8);
	}
	VF_CHECK(P.logN == logN && P.r == 8 && P.p == p, "choice", "chose logN %d r %u p %u, expected logN %d r 8 p %u", P.logN, P.r, P.p, logN, p);
	/* independent of the formula: within the limits, and as large as they permit */
	VF_CHECK(memneed((unsigned)P.logN, P.r) <= mem, "over-memory", "needs more than the memory limit");
	VF_CHECK(opsneed((unsigned)P.logN, P.r, P.p) <= (long double)ops, "over-time", "needs more than the time limit");
	VF_CHECK(opsneed((unsigned)P.logN + 1, P.r, 1) > (long double)ops || memneed((unsigned)P.logN + 1, P.r) > mem, "too-small", "N could be larger");
	VF_CHECK(opsneed((unsigned)P.logN, P.r, P.p + 1) > (long double)ops || P.p >= 0x3fffffff / 8, "too-small", "p could be larger");
	header_ok(o, ol, P.logN, P.r, P.p);
	vf_seen(vf_hash2(mem, vf_hash2((uint64_t)ops, (uint64_t)api))); vf_outcome((uint64_t)logN * 1000003 + p);
	free(o);
}
static void
pick(void)
{
	int e = vf_choose("mem exponent", 43), d = vf_choose("mem detail", 12), k, j, fl; size_t mem, b = (size_t)1 << (20 + e);
	static const long dd[] = { 0, -1, 1, 1023, -1024, 1024, 0, 0, 0, 0, 0, 0 };
	env_reset(); env_stub(); turn = 0;
	if (d < 6) mem = b + (size_t)dd[d]; else mem = d == 6 ? b / 4 * 5 : d == 7 ? b / 2 * 3 : d == 8 ? b / 4 * 7 : d == 9 ? b / 3 * 4 : d == 10 ? b / 8 * 15 + 77 : (size_t)((double)b * 1.9999);
	if (mem < 1048576) return;
	for (k = 0; k < 46; k++) for (j = 0; j < 9; j++) {
		/* operations around each power of two, and around memlimit/32 */
		double o = ldexp(1, 14 + k);
		if (j == 1) o *= 1 - 1e-12; if (j == 2) o *= 1 + 1e-12; if (j == 3) o *= 1.5; if (j == 4) o *= 1.25; if (j == 5) o *= 1.99;
		if (j == 6) { if (k > 3) continue; o = (double)mem / 32 * (k == 0 ? 1 : k == 1 ? 1 - 1e-12 : k == 2 ? 1 + 1e-12 : 0.75); }
		if (j == 7) o *= 8.0 / 3; if (j == 8) o *= 7.0 / 4;
		for (fl = 0; fl < 4; fl++) pick1((k + j + fl) % 3 ? 1 : 0, mem, o / 4, 4.0, fl);
	}
	for (fl = 0; fl < 4; fl++) { pick1(1, mem, 0, 5.0, fl); pick1(0, mem, 1e300, 5.0, fl); pick1(0, mem, 1e6, INFINITY, fl); pick1(0, mem, 1e6, 0, fl); pick1(0, mem, 1e6, 5.0, fl); }
	if (e == 7 && d == 0) vf_sample("memory %zu with 46 x 9 operation counts", mem);
}
static void
explicit_(void)
{
	static const int logs[] = { 1, 2, 10, 14, 20, 31, 32, 40, 62, 63, 64, 65, 127, 128, 255, 256, 266, -1, -255, 1000000 };
	int li = vf_choose("logN", NELEM(logs)), pi, k, api, force, logN = logs[li]; uint32_t r = rs[vf_choose("r", NELEM(rs))];
	env_reset(); env_stub(); turn = 0;
	if (r == 0) return;
	for (pi = 0; pi < NELEM(rs); pi++) for (k = 0; k < 4; k++) for (force = 0; force < 2; force++) {
		uint32_t p = rs[pi]; size_t mm = mms[(pi + k) % NELEM(mms)]; double fr = fracs[(pi + li) % NELEM(fracs)]; struct scryptenc_params P = { .maxmem = mm, .maxmemfrac = fr, .maxtime = 4.0, .logN = logN, .r = r, .p = p }; uint8_t * o; size_t ol, en; int rc, big, slow, ok = logN >= 1 && valid((unsigned)logN, r, p); u128 need = ok ? memneed((unsigned)logN, r) : 1; double on = ok ? (double)opsneed((unsigned)logN, r, p) : 1; char low[8192]; size_t i;
		if (p == 0) continue;
		api = (pi + k) % 2;
		env_memlimit = (k & 1) ? (need > SIZE_MAX ? SIZE_MAX : (size_t)need) : (need - 1 > SIZE_MAX ? SIZE_MAX : (size_t)need - 1);
		env_opps = (k & 2) ? on : on * (1 - 1e-9) ; env_opps /= 4;
		big = need > env_memlimit; slow = ok && (long double)(env_opps * 4) < opsneed((unsigned)logN, r, p);
		env_saltctr = 0; env_kdfcalls = env_memcalls = env_perfcalls = 0;
		vf_note("explicit logN %d r %u p %u, memory limit %zu, operations %g%s", logN, r, p, env_memlimit, env_opps * 4, force ? ", forced" : "");
		cap_begin(); rc = encit(api, &P, 0, force, &o, &ol); en = cap_end(); vf_eval();
		for (i = 0; i <= en && i < sizeof(low); i++) low[i] = cap[i] >= 'A' && cap[i] <= 'Z' ? (char)(cap[i] + 32) : cap[i];
		if (!ok) {
			VF_CHECK(rc == SCRYPT_EPARAM, "accepted", "invalid parameters gave %d", rc);
			VF_CHECK(env_kdfcalls == 0, "kdf", "key derivation started");
			VF_CHECK(api == 0 || ol == 0, "written", "output written");
		} else {
			VF_CHECK(rc == SCRYPT_OK, "rejected", "valid explicit parameters gave %d", rc);
			VF_CHECK(P.logN == logN && P.r == r && P.p == p, "changed", "parameters changed to %d %u %u", P.logN, P.r, P.p);
			header_ok(o, ol, logN, r, p);
			if (force) {
				VF_CHECK(en == 0, "warned", "warning despite the override: %s", cap);
				VF_CHECK(!env_memcalls && !env_perfcalls, "measured", "limits measured despite the override");
			} else {
				VF_CHECK(env_maxmem == mm && env_frac == fr, "asked", "limit of %zu bytes or %g of the memory asked for, %zu or %g measured", mm, fr, env_maxmem, env_frac);
				VF_CHECK((strstr(low, "memory") != NULL) == big, "warning", "memory warning %s: %s", big ? "missing" : "given wrongly", cap);
				VF_CHECK((strstr(low, "time") != NULL) == slow, "warning", "time warning %s: %s", slow ? "missing" : "given wrongly", cap);
			}
		}
		vf_seen(vf_hash2(vf_hash2((uint64_t)logN, r), vf_hash2(p, (uint64_t)(k * 2 + force)))); vf_outcome((uint64_t)(rc * 8 + big * 4 + slow * 2 + force));
		free(o);
	}
	if (logN == 14 && r == 8) vf_sample("explicit logN 14 r 8, all p, limits at and below need");
}
static void
fails(void)
{
	int api = vf_choose("api", 2), what = vf_choose("what", 5), expl = vf_choose("explicit", 2), force = vf_choose("force", 2), rc, want, measured = !(expl && force); struct scryptenc_params P = PARAMS(expl ? 10 : 0, expl ? 8 : 0, expl ? 1 : 0); uint8_t * o; size_t ol;
	env_reset(); env_stub(); turn = 0;
	if (what == 0) { env_memfail = 1; want = measured ? SCRYPT_ELIMIT : 0; }
	else if (what == 1) { env_perf_rc = SCRYPT_ECLOCK; want = measured ? SCRYPT_ECLOCK : 0; }
	else if (what == 2) { env_perf_rc = SCRYPT_EKEY; want = measured ? SCRYPT_EKEY : 0; }
	else if (what == 3) { env_kdf_mode = 2; want = SCRYPT_EKEY; }
	else { env_entropyfail = EIO; want = SCRYPT_ESALT; }
	cap_begin();
	rc = encit(api, &P, 0, force, &o, &ol); cap_end(); vf_eval();
	VF_CHECK(rc == want, "code", "failure %d explicit %d force %d: returned %d, expected %d", what, expl, force, rc, want);
	if (want && what != 3) VF_CHECK(env_kdfcalls == 0, "kdf", "key derivation started");
	if (want && api) VF_CHECK(ol == 0, "written", "output written");
	vf_seen(vf_trace_hash()); vf_outcome((uint64_t)rc); free(o);
}
static const struct vf_scn S[] = { { "automatic", pick, 0, { 0, 0 }, 0, 0 }, { "explicit", explicit_, 0, { 0, 0 }, 0, 0 }, { "failures", fails, 0, { 0, 0 }, 0, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#else
#include "humansize.h"
/* ---- C18 ---- */
/* is t the display of size? the largest displayable value not above it */
static int
shown(const char * t, u128 size, char * why)
{
	static const char u[] = " kMGTPE"; u128 unit = 1, v, step; unsigned a = 0, b = 0; int frac = 0, k; const char * q = t; char c;
	if (*q < '0' || *q > '9') { strcpy(why, "no number"); return (0); }
	while (*q >= '0' && *q <= '9') a = a * 10 + (unsigned)(*q++ - '0');
	if (*q == '.') { q++; frac = 1; if (*q < '0' || *q > '9') return (0); b = (unsigned)(*q++ - '0'); }
	if (*q++ != ' ') { strcpy(why, "no space"); return (0); }
	c = *q;
	if (c != 'B') { for (k = 1; u[k] && u[k] != c; k++) continue; if (!u[k]) { strcpy(why, "unknown unit"); return (0); } while (k--) unit *= 1000; q++; }
	if (*q++ != 'B' || *q) { strcpy(why, "no B at the end"); return (0); }
	if (unit == 1) { if (frac || a > 999) { strcpy(why, "not a valid number of bytes"); return (0); } }
	else if (frac ? (a < 1 || a > 9) : (a < 10 || a > 999)) { strcpy(why, "not in the form 1.0-9.9 or 10-999"); return (0); }
	v = frac ? unit / 10 * (a * 10 + b) : unit * a;
	/* the next displayable value up */
	step = unit == 1 ? 1 : frac ? unit / 10 : unit;
	if (size > UINT64_MAX) { if (v + step <= UINT64_MAX) { strcpy(why, "smaller than 2^64, though the size is more"); return (0); } return (1); }
	if (v > size) { strcpy(why, "larger than the size"); return (0); }
	if (v + step <= size) { strcpy(why, "not the largest such value"); return (0); }
	return (1);
}
static void
hs1(uint64_t n)
{
	char why[100] = "form", * s = humansize(n);
	vf_note("humansize(%ju) = %s", (uintmax_t)n, s ? s : "(null)"); vf_eval();
	VF_CHECK(s != NULL, "null", "no string");
	VF_CHECK(shown(s, n, why), "humansize", "%ju displayed as \"%s\": %s", (uintmax_t)n, s, why);
	vf_seen(n); vf_outcome(vf_hstr(s)); free(s);
}
static void
sizes(void)
{
	int k = vf_choose("part", 64 + 20 + 1); uint64_t i, j; int d;
	if (k == 84) { for (i = 0; i <= (vf_tier ? 20000000u : 1100000u); i++) hs1(i); vf_sample("every size from 0 to 1.1 million"); return; }
	if (k < 64) { for (d = -600; d <= 600; d++) hs1((1ULL << k) + (uint64_t)(int64_t)d); for (i = 0; i < 2000; i++) hs1((1ULL << k) / 2000 * i + i); return; }
	/* around a digit and zeros, and around a unit boundary */
	for (i = 1, d = 0; d < k - 64; d++) i *= 10;
	for (j = 1; j < 1000; j++) { if (j > UINT64_MAX / i) break; for (d = -3; d <= 3; d++) hs1(i * j + (uint64_t)(int64_t)d); hs1(i * j + i / 2); hs1(i * j + i - 1); hs1(i * j - i / 20 - 1); }
}
/* the numbers in a report */
static void
check_report(const char * t, unsigned logN, uint32_t r, uint32_t p, int limits, size_t mem, double opps, double maxtime)
{
	uintmax_t N; unsigned long rr, pp; const char * q; char buf[64], why[100] = "form"; double sec, lim, want; int i;
	VF_CHECK((q = strstr(t, "N = ")) && sscanf(q, "N = %ju; r = %lu; p = %lu", &N, &rr, &pp) == 3, "format", "no parameters in: %s", t);
	VF_CHECK(N == 1ULL << logN && rr == r && pp == p, "parameters", "reported N %ju r %lu p %lu, true logN %u r %u p %u", N, rr, pp, logN, r, p);
	VF_CHECK((q = strstr(t, "at least ")) != NULL, "format", "no memory in: %s", t);
	for (i = 0, q += 9; q[i] && strncmp(q + i, " of", 3) && i < 60; i++) buf[i] = q[i];
	buf[i] = 0;
	VF_CHECK(shown(buf, memneed(logN, r), why), "memory", "memory needed reported as \"%s\": %s", buf, why);
	q = strchr(t, '(');
	if (!limits) { VF_CHECK(q == NULL && !strstr(t, "seconds"), "limits", "limits reported: %s", t); return; }
	VF_CHECK(q != NULL && strstr(q, " available)"), "format", "no memory limit in: %s", t);
	for (i = 0, q++; q[i] && strncmp(q + i, " avail", 6) && i < 60; i++) buf[i] = q[i];
	buf[i] = 0;
	VF_CHECK(shown(buf, mem, why), "memlimit", "memory limit %zu reported as \"%s\": %s", mem, buf, why);
	VF_CHECK((q = strstr(t, "approximately ")) && sscanf(q, "approximately %lf seconds (limit: %lf seconds)", &sec, &lim) == 2, "format", "no times in: %s", t);
	want = (double)(opsneed(logN, r, p) / (long double)opps);
	VF_CHECK(fabs(sec - want) <= 0.0501 + want * 1e-9, "seconds", "reported %f seconds, true %f", sec, want);
	VF_CHECK(fabs(lim - maxtime) <= 0.0501, "limit", "reported limit %f seconds, true %f", lim, maxtime);
}
static const double sp[] = { 1, 1e3, 123456.5, 1e9 };
/* info: every header */
static void
info(void)
{
	unsigned logN = (unsigned)vf_choose("logN", 256); int i, j, bad, rc; uint8_t f[200]; size_t n, en;
	env_reset(); env_stub(); fill(SALT, 32, 3);
	for (i = 0; i < NELEM(rs); i++) for (j = 0; j < NELEM(rs); j++) {
		struct vin vi; FILE * fi;
		if (logN > 66 && logN < 250 && (i + j) % 9) continue;
		for (bad = 0; bad < 6; bad++) {
			if (bad && (i + j * 3) % 11) continue;
			n = mk(f, logN, rs[i], rs[j]);
			if (bad == 1) f[3] ^= 1; else if (bad == 2) f[6] = 1; else if (bad == 3) f[16 + (i * 7 + j) % 32] ^= 4; else if (bad == 4) n = 95; else if (bad == 5) f[48 + (i + j) % 16] ^= 0x80;
			vin_init(&vi, f, n); vi.chunk = (size_t)j; fi = vin_open(&vi, -1);
			vf_note("info on logN %u r %u p %u%s", logN, rs[i], rs[j], bad == 1 ? ", bad magic" : bad == 2 ? ", version 1" : bad == 3 ? ", damaged salt" : bad == 4 ? ", 95 bytes" : bad == 5 ? ", damaged checksum" : "");
			cap_begin(); rc = scryptdec_file_printparams(fi); en = cap_end(); fclose(fi); vf_eval();
			if (bad || !valid(logN, rs[i], rs[j])) {
				VF_CHECK(rc == (bad == 2 ? SCRYPT_EVERSION : SCRYPT_EINVAL), "invalid-shown", "invalid header gave %d; printed: %s", rc, cap);
				VF_CHECK(en == 0, "invalid-shown", "printed: %s", cap);
			} else {
				VF_CHECK(rc == SCRYPT_OK, "rc", "returned %d", rc);
				check_report(cap, logN, rs[i], rs[j], 0, 0, 0, 0);
			}
			VF_CHECK(env_memcalls + env_perfcalls + env_kdfcalls == 0, "measured", "info measured limits or derived a key");
			vf_seen(vf_hash(f, n, (uint64_t)bad)); vf_outcome(vf_hstr(cap));
		}
	}
	if (logN == 63) vf_sample("logN 63 r %u: %s", rs[15], cap);
}
/* verbose: decryption and encryption, forced or not */
static void
verbose(void)
{
	unsigned logN = 1 + (unsigned)vf_choose("logN", 63); uint32_t r = rs[vf_choose("r", 21)]; int j, k, rc; uint8_t f[200], o1[200], o2[200]; size_t n, ol, m;
	static const size_t mems[] = { 1048576, 999999999, 1000000000, SIZE_MAX, 123456789012345ULL };
	env_reset(); env_stub(); fill(SALT, 32, 3);
	for (j = 0; j < 21; j++) for (k = 0; k < 8; k++) {
		uint32_t p = rs[j]; struct scryptenc_params P = { .maxmem = 0, .maxmemfrac = 0.5, .maxtime = k % 3 ? 300.0 : 5.25, .logN = 0, .r = 0, .p = 0 }, Q;
		int force = k == 7; size_t e1, e2;
		if (!valid(logN, r, p)) continue;
		env_memlimit = mems[(k + j) % 5]; env_opps = sp[k % 4];
		n = mk(f, logN, r, p); Q = P;
		vf_note("verbose, logN %u r %u p %u, memory %zu speed %g%s", logN, r, p, env_memlimit, env_opps, force ? ", forced" : "");
		/* decryption */
		cap_begin(); rc = scryptdec_buf(f, n, o1, &ol, (const uint8_t *)PW, 2, &P, 1, force); e1 = cap_end(); vf_eval();
		check_report(cap, logN, r, p, !force, env_memlimit, env_opps, P.maxtime);
		P = Q; cap_begin(); m = (size_t)scryptdec_buf(f, n, o2, &ol, (const uint8_t *)PW, 2, &P, 0, force); e2 = cap_end();
		VF_CHECK((int)m == rc && e2 == 0, "changes-result", "verbose mode changes the result (%d, %d) or quiet mode prints", rc, (int)m);
		VF_CHECK(rc || !memcmp(o1, o2, ol), "changes-data", "verbose mode changes the data");
		(void)e1;
		/* explicit encryption */
		P = Q; P.logN = (int)logN; P.r = r; P.p = p; env_saltctr = 0;
		cap_begin(); rc = scryptenc_buf(MSG, 20, o1, (const uint8_t *)PW, 2, &P, 1, force); cap_end(); vf_eval();
		VF_CHECK(rc == 0, "enc", "encryption returned %d", rc);
		check_report(cap, logN, r, p, !force, env_memlimit, env_opps, P.maxtime) ;
		P = Q; P.logN = (int)logN; P.r = r; P.p = p; env_saltctr = 0;
		cap_begin(); scryptenc_buf(MSG, 20, o2, (const uint8_t *)PW, 2, &P, 0, force); cap_end();
		VF_CHECK(!memcmp(o1, o2, 148), "changes-data", "verbose mode changes the encrypted data");
		vf_seen(vf_hash2(vf_hash2(logN, r), vf_hash2(p, (uint64_t)k))); vf_outcome(vf_hstr(cap));
	}
	/* automatic encryption: what is reported is what is recorded */
	if (r == 8) for (k = 0; k < 30; k++) {
		struct scryptenc_params P = { .maxmem = 0, .maxmemfrac = 0.5, .maxtime = 5.0, .logN = 0, .r = 0, .p = 0 };
		env_memlimit = (1ULL << 20) * (uint64_t)(k + 1) * logN; env_opps = 10000.0 * (k * k + 1);
		cap_begin(); rc = scryptenc_buf(MSG, 20, o1, (const uint8_t *)PW, 2, &P, 1, 0); cap_end(); vf_eval();
		VF_CHECK(rc == 0, "enc", "encryption returned %d", rc);
		vf_note("automatic, memory %zu, speed %g", env_memlimit, env_opps);
		check_report(cap, o1[7], (uint32_t)o1[10] << 8 | o1[11], (uint32_t)o1[12] << 24 | (uint32_t)o1[13] << 16 | (uint32_t)o1[14] << 8 | o1[15], 1, env_memlimit, env_opps, 5.0);
		vf_seen(vf_hash2(env_memlimit, (uint64_t)k)); vf_outcome(vf_hstr(cap));
	}
	if (logN == 14 && r == 8) vf_sample("automatic: %s", cap);
}
static const struct vf_scn S[] = { { "sizes", sizes, 0, { 0, 0 }, 0, 0 }, { "info", info, 0, { 0, 0 }, 0, 0 }, { "verbose", verbose, 0, { 0, 0 }, 0, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#endif
int main(int argc, char ** argv) { return (vf_main(argc, argv, S)); }
