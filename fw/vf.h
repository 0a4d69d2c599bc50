/*
 * vf: a small stateless explorer.
 *
 * A scenario is a function whose every nondeterministic decision (input shape,
 * environment answer, fault, schedule step) is taken by vf_choose()/vf_dev().
 * The explorer runs it once per distinct sequence of decisions, depth first
 * over the whole decision tree, in parallel worker processes.  vf_dev() is a
 * deviation from the default answer 0 and is bounded per execution by the
 * scenario's maxdev; vf_choose() is unbounded (enumerated completely).
 */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <signal.h>
#include <sys/prctl.h>
#include <unistd.h>

/* A child never outlives the process which started it, even if it hangs. */
static inline pid_t
vf_fork(void)
{
	pid_t me = getpid(), p = fork();

	if (p == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (getppid() != me)
			_exit(125);
	}
	return (p);
}

struct vf_scn {
	const char * name;
	void (*fn)(void);
	int fork_each;		/* fresh process for each execution */
	int maxdev[2];		/* deviation bound, quick / thorough */
	int timeout_s;		/* per execution; 0 = 60 */
	int thorough_only;
};

extern int vf_tier;		/* 0 quick, 1 thorough */
extern int vf_replaying;

/* Decisions. */
int vf_choose(const char * tag, int n);
int vf_dev(const char * tag, int n);
int vf_devs_left(void);

/* Accounting. */
void vf_eval(void);			/* one more evaluation in this execution */
void vf_seen(uint64_t h);		/* a distinct, non-trivial case */
void vf_outcome(uint64_t h);		/* an observed outcome */
void vf_state(uint64_t h);		/* an abstract state visited */
void vf_trans(uint64_t h);		/* an abstract transition taken */
void vf_sample(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
/* Description of the case being checked right now (kept for the report). */
void vf_note(const char * fmt, ...) __attribute__((format(printf, 1, 2)));

/* Property violated: record and end this execution. */
void vf_fail(const char * key, const char * fmt, ...)
    __attribute__((noreturn, format(printf, 2, 3)));
/* Harness problem, never a violation. */
void vf_internal(const char * fmt, ...)
    __attribute__((noreturn, format(printf, 1, 2)));
#define VF_CHECK(cond, key, ...) do { if (!(cond)) vf_fail(key, __VA_ARGS__); } while (0)

uint64_t vf_hash(const void * p, size_t n, uint64_t seed);
uint64_t vf_hash2(uint64_t a, uint64_t b);
uint64_t vf_hstr(const char * s);
uint64_t vf_trace_hash(void);		/* hash of the decisions so far */

/* A scratch directory unique to this run; removed at the end. */
const char * vf_scratch(void);
/* A directory of the calling process alone inside it, emptied on each call. */
const char * vf_privdir(void);

int vf_main(int argc, char ** argv, const struct vf_scn * scns);

#define NELEM(a) ((int)(sizeof(a) / sizeof((a)[0])))
#endif
