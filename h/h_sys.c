/* C08 memory limit, C22 CPU speed: the real measuring code over system
 * answers the harness decides. */
#define _GNU_SOURCE
#include <sys/resource.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <errno.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include "vf.h"
#include "scryptenc.h"
#include "memlimit.h"
#include "scryptenc_cpuperf.h"
#include "crypto_scrypt.h"

static int active;
#if PROP == 8
static struct sysinfo SI; static int si_err;
static rlim_t as_cur, rss_cur, data_cur, maxlim; static int as_err, rss_err, data_err;
static long pgsz, pages; static int pg_err, pages_err;	/* errno when -1 */
static int calls;
int __real_sysinfo(struct sysinfo *); int __wrap_sysinfo(struct sysinfo *);
int __wrap_sysinfo(struct sysinfo * s)
{
	if (!active) return (__real_sysinfo(s));
	calls++;
	if (si_err) { errno = si_err; return (-1); }
	*s = SI; return (0);
}
int __real_getrlimit(__rlimit_resource_t, struct rlimit *); int __wrap_getrlimit(__rlimit_resource_t, struct rlimit *);
int __wrap_getrlimit(__rlimit_resource_t w, struct rlimit * r)
{
	if (!active) return (__real_getrlimit(w, r));
	calls++;
	r->rlim_cur = r->rlim_max = RLIM_INFINITY;
	if (w == RLIMIT_AS) { if (as_err) { errno = as_err; return (-1); } r->rlim_cur = as_cur; r->rlim_max = maxlim > as_cur ? maxlim : as_cur; }
	if (w == RLIMIT_RSS) { if (rss_err) { errno = rss_err; return (-1); } r->rlim_cur = rss_cur; r->rlim_max = maxlim > rss_cur ? maxlim : rss_cur; }
	/* relevant only where memory does not come from mmap */
	if (w == RLIMIT_DATA) { if (data_err) { errno = data_err; return (-1); } r->rlim_cur = data_cur; r->rlim_max = maxlim > data_cur ? maxlim : data_cur; }
	return (0);
}
long __real_sysconf(int); long __wrap_sysconf(int);
long __wrap_sysconf(int n)
{
	if (!active) return (__real_sysconf(n));
	if (n == _SC_PAGESIZE) { calls++; if (pgsz == -1 && pg_err) errno = pg_err; return (pgsz); }
	if (n == _SC_PHYS_PAGES) { calls++; if (pages == -1 && pages_err) errno = pages_err; return (pages); }
	return (__real_sysconf(n));
}
static const struct { uint64_t ram; uint32_t unit; } rams[] = {
	{ 1ULL << 30, 1 }, { (1ULL << 19), 1 }, { (1ULL << 20) + 1, 1 }, { 1ULL << 20, 4096 }, { 1ULL << 22, 4096 }, { 3333333333ULL, 1 }, { 1ULL << 40, 1 }, { 1ULL << 34, 1024 }, { 1ULL << 62, 1 }, { 1, 1 }, { 1ULL << 33, 1 }, { (1ULL << 32) - 1, 4 } };
static const rlim_t lims[] = { RLIM_INFINITY, 0, 1 << 20, 100000000, 1ULL << 30, (1ULL << 32) + 7, 1ULL << 40, 1ULL << 63, RLIM_INFINITY - 1, 3000000 };
static const struct { long pg, n; int pe, ne; } confs[] = {
	{ 4096, 1 << 18, 0, 0 }, { 4096, 1 << 30, 0, 0 }, { 16384, 777777, 0, 0 }, { 65536, 33, 0, 0 }, { 4096, 1, 0, 0 }, { 4096, 2000000, 0, 0 }, { 4096, -1, 0, 0 }, { 4096, -1, 0, EINVAL }, { -1, 1000, 0, 0 }, { -1, 5, EINVAL, 0 }, { -1, -1, EINVAL, EINVAL }, { 4096, 1L << 50, 0, 0 } };
static const double fracs[] = { 0.5, 0.125, 1.0, 0.3, 1e-3, 1e-12, 0.999999 };
static const size_t maxs[] = { 0, 1, 1048575, 1048576, 1048577, 50000000, 1000000000, 5000000000ULL, SIZE_MAX, 1ULL << 33 };
static void
set(int r, int a, int s, int c)
{
	memset(&SI, 0x5a, sizeof(SI));
	SI.totalram = rams[r].ram; SI.mem_unit = rams[r].unit; si_err = as_err = rss_err = 0;
	as_cur = lims[a]; rss_cur = lims[s]; data_cur = RLIM_INFINITY; data_err = 0;
#ifndef VF_ALT
	data_cur = 0;
#endif
 maxlim = RLIM_INFINITY;
	pgsz = confs[c].pg; pages = confs[c].n; pg_err = confs[c].pe; pages_err = confs[c].ne;
}
#ifdef VF_ALT
/* ---- a platform with sysctl, without sysinfo and mmap ---- */
#include <sys/sysctl.h>
#define T1M (1 << 20)
static const struct { int err; size_t len; uint64_t v; } ctl[] = { { 0, 8, 1ULL << 30 }, { 0, 8, 100000000 }, { 0, 8, 1 }, { 0, 8, (1ULL << 40) + 5 }, { 0, 8, (1ULL << 32) + T1M }, { 0, 8, UINT64_MAX }, { 0, 4, 12345678 }, { 0, 8, 3000000 }, { EIO, 8, 1 << 30 }, { ENOENT, 8, 0 }, { 0, 0, 7 }, { 0, 2, 7 }, { 0, 6, 7 } };
static int ctl_u, ctl_m, nctl;
int sysctl(const int * mib, unsigned int n, void * old, size_t * len, const void * new, size_t newlen)
{
	int k;
	nctl++;
	if (n != 2 || mib[0] != CTL_HW || new != NULL || newlen != 0) vf_fail("sysctl", "unexpected sysctl(%d, ...)", mib[0]);
	k = mib[1] == HW_USERMEM ? ctl_u : ctl_m;
	if (mib[1] != HW_USERMEM && mib[1] != HW_MEMSIZE) { errno = ENOENT; return (-1); }
	if (ctl[k].err) { errno = ctl[k].err; return (-1); }
	if (*len < ctl[k].len) { errno = ENOMEM; return (-1); }
	memcpy(old, &ctl[k].v, ctl[k].len); *len = ctl[k].len;
	return (0);
}
static void
altcombos(void)
{
	static const int cs[] = { 0, 2, 3, 5, 6, 7, 8 }, ls[] = { 0, 3, 5, 9, 1 }; static const int fs[] = { 0, 2, 3 }; static const size_t ms[] = { 0, 50000000, SIZE_MAX };
	int u = vf_choose("usermem", NELEM(ctl)), m = vf_choose("memsize", NELEM(ctl)), a, d, s, c, f, x;
	for (a = 0; a < NELEM(ls); a++) for (d = 0; d < NELEM(ls); d++) for (s = 0; s < 3; s++) for (c = 0; c < NELEM(cs); c++) for (f = 0; f < NELEM(fs); f++) for (x = 0; x < NELEM(ms); x++) {
		unsigned __int128 min = (unsigned __int128)-1, q, um; long double e, tol; size_t lim = 4242; int rc, bad = 0, sc = 0; uint64_t conf = 0;
		set(0, ls[a], ls[s], cs[c]); data_cur = lims[ls[d]]; ctl_u = u; ctl_m = m;
		vf_note("usermem answer %d (%zu bytes, %ju), memsize answer %d (%zu bytes, %ju), AS %ju, DATA %ju, RSS %ju, pages %ld x %ld, fraction %g, maximum %zu", ctl[u].err, ctl[u].len, (uintmax_t)ctl[u].v, ctl[m].err, ctl[m].len, (uintmax_t)ctl[m].v, (uintmax_t)as_cur, (uintmax_t)data_cur, (uintmax_t)rss_cur, pgsz, pages, fracs[fs[f]], ms[x]);
		errno = 0; active = 1; rc = memtouse(ms[x], fracs[fs[f]], &lim); active = 0; vf_eval();
		if (ctl[u].err || (ctl[u].len != 8 && ctl[u].len != 4) || ctl[m].err || (ctl[m].len != 8 && ctl[m].len != 4)) bad = 1;
		if (bad) { VF_CHECK(rc != 0, "fault", "a query failed or gave no number, but the limit is %zu", lim); vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)(a * 10000 + d * 1000 + s * 100 + c * 10 + f + x))); continue; }
		VF_CHECK(rc == 0, "rc", "returned %d", rc);
		if (confs[cs[c]].pg != -1 && confs[cs[c]].n != -1) { sc = 1; conf = (uint64_t)confs[cs[c]].pg * (uint64_t)confs[cs[c]].n; min = conf; }
		/* hw.usermem is not believed below half of the physical pages; a 4-byte answer says nothing */
		if (ctl[u].len == 8) { um = ctl[u].v; if (sc && um < conf / 2) um = conf / 2; if (um < min) min = um; }
		if (ctl[m].len == 8 && ctl[m].v < min) min = ctl[m].v;
		q = lims[ls[a]]; if (q != RLIM_INFINITY && q < min) min = q;
		q = lims[ls[d]]; if (q != RLIM_INFINITY && q < min) min = q;
		q = lims[ls[s]]; if (q != RLIM_INFINITY && q < min) min = q;
		if (min > SIZE_MAX) min = SIZE_MAX;
		e = (long double)min * (long double)fracs[fs[f]]; tol = 1 + e * 0x1p-51L;
		if (e >= 0x1p63L) continue;	/* no limit known at all */
		if (ms[x] && e > (long double)ms[x]) { tol = e - (long double)ms[x] < tol ? tol : 0; e = (long double)ms[x]; }
		if (e < 1048576) { e = 1048576; tol = 0; }
		VF_CHECK(fabsl((long double)lim - e) <= tol, "limit", "limit is %zu, expected %.0Lf", lim, e);
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)((((a * 10 + d) * 10 + s) * 10 + c) * 10 + f) * 10 + (uint64_t)x)); vf_outcome(lim);
	}
	if (u == 0 && m == 1) vf_sample("usermem 1 GiB, memsize 100000000: all resource limits, page answers, fractions and maxima");
}
static void
altfaults(void)
{
	int w = vf_choose("query", 5), rc; size_t lim = 4242;
	set(0, 0, 0, 0); ctl_u = ctl_m = 0;
	if (w == 0) as_err = EIO; else if (w == 1) data_err = EIO; else if (w == 2) rss_err = EPERM; else if (w == 3) { pgsz = -1; pg_err = EIO; } else { pages = -1; pages_err = EIO; }
	vf_note("query %d fails", w);
	active = 1; rc = memtouse(0, 0.5, &lim); active = 0; vf_eval();
	VF_CHECK(rc != 0, "fault", "a failing query was not reported; limit %zu", lim);
	vf_seen(vf_trace_hash()); vf_outcome((uint64_t)w);
}
static const struct vf_scn S[] = { { "alt_combinations", altcombos, 0, { 0, 0 }, 0, 0 }, { "alt_faults", altfaults, 0, { 0, 0 }, 0, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#else
static void
combos(void)
{
	int r = vf_choose("ram", NELEM(rams)), a = vf_choose("as", NELEM(lims)), s = vf_choose("rss", NELEM(lims)), c, f, m, h;
	for (c = 0; c < NELEM(confs); c++) for (f = 0; f < NELEM(fracs); f++) for (m = 0; m < NELEM(maxs); m++) {
		size_t lim = 4242, want; int rc; unsigned __int128 min = (unsigned __int128)-1, x; long double e, tol;
		h = (c + f + m) % 3;
		set(r, a, s, c);
		/* the hard limit does not count */
		if (h == 1) maxlim = as_cur > rss_cur ? as_cur : rss_cur;
		x = (unsigned __int128)rams[r].ram * rams[r].unit; if (x < min) min = x;
		if (lims[a] != RLIM_INFINITY && lims[a] < min) min = lims[a];
		if (lims[s] != RLIM_INFINITY && lims[s] < min) min = lims[s];
		if (confs[c].pg != -1 && confs[c].n != -1) { x = (unsigned __int128)confs[c].pg * (unsigned __int128)confs[c].n; if (x < min) min = x; }
		vf_note("ram %ju x %u, AS %ju, RSS %ju, pages %ld x %ld, fraction %g of it, maximum %zu", (uintmax_t)rams[r].ram, rams[r].unit, (uintmax_t)lims[a], (uintmax_t)lims[s], confs[c].pg, confs[c].n, fracs[f], maxs[m]);
		errno = (m & 1) ? ENOENT : 0;
		active = 1; rc = memtouse(maxs[m], fracs[f], &lim); active = 0;
		vf_eval();
		VF_CHECK(rc == 0, "rc", "returned %d", rc);
		e = (long double)min * (long double)fracs[f];
		tol = 1 + e * 0x1p-51L;
		if (maxs[m] && e > (long double)maxs[m]) { e = (long double)maxs[m]; tol = tol > 1 && (long double)min * (long double)fracs[f] - e < tol ? tol : 0; }
		if (e < 1048576) { e = 1048576; tol = 0; }
		want = (size_t)e;
		VF_CHECK(fabsl((long double)lim - e) <= tol, "limit", "limit is %zu, expected %zu", lim, want);
		VF_CHECK(lim >= 1048576, "floor", "limit %zu below 1 MiB", lim);
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)(c * 1000 + f * 100 + m))); vf_outcome(lim);
	}
	if (r == 0 && a == 3 && s == 0) vf_sample("ram 1 GiB, AS 100000000: all page answers, fractions and maxima");
}
/* every failing query */
static void
faults(void)
{
	int w = vf_choose("query", 5), e = vf_choose("errno", 4), r = vf_choose("ram", 4), c = vf_choose("conf", 3), rc, err, st; size_t lim = 4242; static const int es[] = { EFAULT, EIO, EPERM, ENOSYS };
	for (st = 0; st < 3; st++) {
		set(r, 0, st == 2 ? 4 : 0, c); err = es[e];
		if (w == 0) si_err = err; else if (w == 1) as_err = err; else if (w == 2) rss_err = err; else if (w == 3) { pgsz = -1; pg_err = err; } else { pages = -1; pages_err = err; }
		errno = st == 1 ? EINVAL : 0;
		vf_note("query %d fails with errno %d", w, err);
		active = 1; rc = memtouse(0, 0.5, &lim); active = 0; vf_eval();
		VF_CHECK(rc != 0, "fault", "a failing query was not reported; limit %zu", lim);
		vf_seen(vf_hash2(vf_trace_hash(), (uint64_t)st)); vf_outcome((uint64_t)w);
	}
}
static const struct vf_scn S[] = { { "combinations", combos, 0, { 0, 0 }, 0, 0 }, { "faults", faults, 0, { 0, 0 }, 0, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#endif
#else
/* ---- C22 ---- */
#define MAXEV 4000
static struct { int kind; int64_t t; uint64_t ops; } EV[MAXEV];	/* 0 reading, 1 KDF */
static int nev, nread, ncalls; static int64_t now_ns; static int64_t res_ns; static int fail_call, fail_errno, fail_kdf, kdfs, nomono, lies, stuck;
static int script_len;
static const int64_t steps[] = { 0, 1, 400, 1000, 1000000, 20000000 };
static int64_t cpu_ns;
/* a machine of steady speed: the time is the work done (per second), read with a granularity */
static double pace; static int64_t gran; static uint64_t work; static double lastop; static long kdfmax;
static void advance(void)
{
	int64_t d;
	if (pace > 0) { nread++; now_ns = 5000000123LL + (int64_t)((double)work / pace * 1e9); if (gran) now_ns -= now_ns % gran; return; }
	if (nread < script_len) d = steps[vf_choose("elapsed", vf_tier ? NELEM(steps) : 5)];
	else if (nread < script_len + stuck) d = 0;
	else d = 2 * res_ns + 5000000;
	nread++;
	now_ns += d;
}
int __real_clock_gettime(clockid_t, struct timespec *); int __wrap_clock_gettime(clockid_t, struct timespec *);
int __real_clock_getres(clockid_t, struct timespec *); int __wrap_clock_getres(clockid_t, struct timespec *);
int __real_gettimeofday(struct timeval *, void *); int __wrap_gettimeofday(struct timeval *, void *);
static int fails(void) { if (ncalls++ == fail_call) { errno = fail_errno; return (1); } return (0); }
int __wrap_clock_gettime(clockid_t c, struct timespec * t)
{
	int64_t x;
	if (!active) return (__real_clock_gettime(c, t));
	if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) { cpu_ns += 1000; t->tv_sec = cpu_ns / 1000000000; t->tv_nsec = cpu_ns % 1000000000; return (0); }
	if (nomono && c == CLOCK_MONOTONIC) { errno = nomono; return (-1); }
	if (fails()) return (-1);
	advance();
	x = now_ns;
	if (c != CLOCK_MONOTONIC && !nomono) x = 1700000000000000000LL - 37 * now_ns;	/* a wall clock being set */
	if (nev < MAXEV && pace == 0) { EV[nev].kind = 0; EV[nev].t = x; nev++; }
	t->tv_sec = x / 1000000000; t->tv_nsec = x % 1000000000;
	return (0);
}
int __wrap_gettimeofday(struct timeval * tv, void * z)
{
	struct timespec ts;
	if (!active) return (__real_gettimeofday(tv, z));
	if (__wrap_clock_gettime(CLOCK_REALTIME, &ts)) return (-1);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
	return (0);
}
int __wrap_clock_getres(clockid_t c, struct timespec * t)
{
	if (!active) return (__real_clock_getres(c, t));
	if (nomono && c == CLOCK_MONOTONIC) { errno = nomono; return (-1); }
	if (fails()) return (-1);
	t->tv_sec = res_ns / 1000000000; t->tv_nsec = res_ns % 1000000000;
	return (0);
}
int __real_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int __wrap_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int __wrap_crypto_scrypt(const uint8_t * a, size_t b, const uint8_t * c, size_t d, uint64_t N, uint32_t r, uint32_t p, uint8_t * o, size_t n)
{
	if (!active) return (__real_crypto_scrypt(a, b, c, d, N, r, p, o, n));
	if (kdfs++ == fail_kdf) { errno = ENOMEM; return (-1); }
	if (pace > 0) { work += 4 * N * r * p; lastop = (double)(4 * N * r * p); if (kdfs > kdfmax) vf_fail("endless", "measured %d times without finishing", kdfs); return (0); }
	if (nev >= MAXEV) vf_fail("endless", "measured %d times without finishing", kdfs);
	EV[nev].kind = 1; EV[nev].ops = 4 * N * r * p; nev++;
	return (0);
}
static int
measure(double * opps)
{
	int rc;
	work = 0; nev = nread = ncalls = kdfs = 0; now_ns = 5000000123LL; cpu_ns = 1;
	*opps = -7;
	active = 1; rc = scryptenc_cpuperf(opps); active = 0;
	vf_eval();
	return (rc);
}
/* does some pair of readings explain the speed? */
static void
explain(double opps)
{
	int i, j; uint64_t ops;
	VF_CHECK(isfinite(opps) && opps > 0, "speed", "speed is %g", opps);
	for (i = 0; i < nev; i++) if (EV[i].kind == 0) for (ops = 0, j = i + 1; j < nev; j++) {
		int64_t us, ns;
		if (EV[j].kind == 1) { ops += EV[j].ops; continue; }
		ns = EV[j].t - EV[i].t; us = EV[j].t / 1000 - EV[i].t / 1000;
		if (ns <= 0 || !ops) continue;
		/* longer than the resolution of the clock, up to the microseconds it is read in */
		if ((ns > res_ns - 1000) && ((us > 0 && fabs(opps * (double)us * 1e-6 / (double)ops - 1) < 1e-9) || fabs(opps * (double)ns * 1e-9 / (double)ops - 1) < 1e-9)) return;
	}
	vf_fail("unexplained", "speed %g is not the operations done between any two readings (longer apart than the resolution) over the time between them", opps);
}
static const int64_t ress[] = { 1, 1000, 1000000, 4000000, 15625000, 1000000000 };
static void
schedules(void)
{
	int r = vf_choose("resolution", NELEM(ress)); double opps; int rc;
	res_ns = ress[r]; fail_call = fail_kdf = -1; stuck = vf_choose("stuck", 3) * 40; script_len = vf_tier ? 7 : 6; nomono = 0;
	rc = measure(&opps);
	vf_note("resolution %jd ns, %d readings, %d key derivations -> speed %g", (intmax_t)res_ns, nread, kdfs, opps);
	VF_CHECK(rc == SCRYPT_OK, "rc", "returned %d", rc);
	explain(opps);
	vf_seen(vf_trace_hash()); vf_outcome((uint64_t)opps);
	if (vf_trace_hash() % 9973 == 0) vf_sample("resolution %jd ns, %d readings, %d key derivations: speed %g", (intmax_t)res_ns, nread, kdfs, opps);
}
/* the clock fails at each call, the derivation fails at each call */
static void
faults(void)
{
	int r = vf_choose("resolution", NELEM(ress)), k = vf_choose("position", 14), what = vf_choose("what", 2), rc, e, n; double opps; static const int es[] = { EIO, EPERM, EFAULT };
	res_ns = ress[r]; stuck = vf_choose("stuck", 3); script_len = 3; nomono = 0;
	e = vf_choose("errno", 3);
	fail_call = what ? -1 : k; fail_kdf = what ? k : -1; fail_errno = es[e];
	rc = measure(&opps);
	n = what ? kdfs : ncalls;
	vf_note("%s %d fails (errno %d) -> %d, speed %g", what ? "key derivation" : "clock call", k, es[e], rc, opps);
	if (n <= k) { VF_CHECK(rc == SCRYPT_OK, "rc", "returned %d", rc); explain(opps); return; }
	VF_CHECK(rc == (what ? SCRYPT_EKEY : SCRYPT_ECLOCK), "code", "returned %d, expected %d", rc, what ? SCRYPT_EKEY : SCRYPT_ECLOCK);
	vf_seen(vf_trace_hash()); vf_outcome((uint64_t)rc);
}
/* no monotonic clock: the other one serves */
static void
fallback(void)
{
	int r = vf_choose("resolution", NELEM(ress)), rc; double opps;
	res_ns = ress[r]; fail_call = fail_kdf = -1; stuck = 0; script_len = 5; nomono = vf_choose("errno", 2) ? EINVAL : ENOSYS;
	rc = measure(&opps);
	VF_CHECK(rc == SCRYPT_OK, "rc", "returned %d", rc);
	explain(opps);
	vf_seen(vf_trace_hash()); vf_outcome((uint64_t)opps);
}
/* machines of every speed, clocks of every resolution, up to operation counts beyond 2^32 */
static void
steady(void)
{
	static const double ks[] = { 16, 17, 100, 1000, 4095, 65536, 300001, 1048576, 2097153, 4194304, 4194305, 8388608, 8388610 };
	int r = vf_choose("resolution", NELEM(ress)), k = vf_choose("derivations per tick", NELEM(ks)), g = vf_choose("granularity", 3), rc; double opps, tol;
	if (k > 7 && r != 3) return;
	kdfmax = (long)(ks[k] * 40) + 1000;
	res_ns = ress[r]; fail_call = fail_kdf = -1; stuck = 0; nomono = 0; script_len = 0;
	gran = g == 0 ? 0 : g == 1 ? 1000 : res_ns; if (gran == 1) return;
	/* the code takes microseconds: a tick is at least one */
	pace = ks[k] * 512 * 1e9 / (double)(res_ns < 1000 ? 1000 : res_ns);
	vf_note("steady machine: %g operations per second, resolution %jd ns, granularity %jd ns", pace, (intmax_t)res_ns, (intmax_t)gran);
	rc = measure(&opps);
	tol = 1e-3 + 4 * lastop / (ks[k] * 512) + (res_ns < 1000000 ? 4e3 / (double)(res_ns < 1000 ? 1000 : res_ns) : 0);
	vf_note("steady machine: %g operations per second, resolution %jd ns, granularity %jd ns: %d key derivations, measured %g", pace, (intmax_t)res_ns, (intmax_t)gran, kdfs, opps);
	{ double was = pace; pace = 0;
	VF_CHECK(rc == SCRYPT_OK, "rc", "returned %d", rc);
	VF_CHECK(isfinite(opps) && opps > 0, "speed", "speed is %g", opps);
	if (tol < 0.6) VF_CHECK(fabs(opps / was - 1) <= tol, "pace", "a machine of %g operations per second was measured as %g", was, opps); }
	vf_seen(vf_trace_hash()); vf_outcome((uint64_t)opps);
}
static const struct vf_scn S[] = { { "steady", steady, 0, { 0, 0 }, 60, 0 }, { "schedules", schedules, 0, { 0, 0 }, 0, 0 }, { "faults", faults, 0, { 0, 0 }, 0, 0 }, { "fallback", fallback, 0, { 0, 0 }, 0, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
#endif
int main(int argc, char ** argv) { return (vf_main(argc, argv, S)); }
