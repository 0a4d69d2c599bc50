/* C15: every moment at which the code calls out is a moment at which a signal
 * may arrive; every call may fail. */
static const int sigs[] = { SIGINT, SIGALRM, SIGHUP, SIGPIPE, SIGQUIT, SIGTERM, SIGTSTP, SIGTTIN, SIGTTOU };
#define NS 9
static struct termios T0, TS, T0s; static int tfails;
static struct sigaction disp[65], disp0[65];
static int pend[65], effects[65], injected[65], killer, terminated, sig_budget_all; static jmp_buf out_;
static char hist[600]; static size_t hn;
static int reads_tty, restoring, tio_restorefails;
static void note(const char * f, ...) { va_list a; va_start(a, f); if (hn < sizeof(hn) + 500) hn += (size_t)vsnprintf(hist + hn, sizeof(hist) - hn, f, a); if (hn > sizeof(hist) - 1) hn = sizeof(hist) - 1; va_end(a); vf_note("%s", hist); }
static int settled(void) { return (!memcmp(&TS, &T0, sizeof(TS)) && !memcmp(&T0s, &T0, sizeof(TS))); }
static void user_handler(int s);
static void user_handler(int s) { effects[s]++; }
/* the signal takes the effect its disposition now has */
static void
deliver(int s)
{
	struct sigaction * d = &disp[s];
	if (d->sa_handler == SIG_IGN) { if (disp0[s].sa_handler == SIG_IGN) effects[s]++; return; }
	if (d->sa_handler == SIG_DFL) {
		effects[s]++;
		VF_CHECK(settled(), "early", "signal %d took its default effect while the terminal was changed", s);
		if (s == SIGTSTP || s == SIGTTIN || s == SIGTTOU) return;	/* stopped and continued */
		killer = s;
		longjmp(out_, 1);
	}
	if (d->sa_handler == user_handler) { VF_CHECK(settled(), "early", "signal %d reached its handler while the terminal was changed", s); if (d->sa_flags & SA_SIGINFO) vf_fail("flags", "handler flags changed"); }
	if (d->sa_flags & SA_RESETHAND) d->sa_handler = SIG_DFL;
	{ void (*h)(int) = disp[s].sa_handler == SIG_DFL ? user_handler : d->sa_handler; h(s); }
}
static int any_caught;	/* some signal was caught by a handler which does not restart calls */
static void
inject(int i, const char * what)
{
	int s = sigs[i];
	note(" [signal %d at %s]", s, what);
	injected[s]++;
	if (disp[s].sa_handler != SIG_IGN && disp[s].sa_handler != SIG_DFL && !(disp[s].sa_flags & SA_RESTART)) any_caught = 1;
	deliver(s);
}
static void
boundary(const char * what)
{
	int k;
	if (!sim) return;
	k = vf_dev("signal", NS + 1);
	if (k) inject(k - 1, what);
}
static int
fault(const char * what, int n)
{
	int k = sim ? vf_dev(what, n) : 0;
	if (k) note(" [%s fails %d]", what, k);
	return (k);
}
static void
reading(struct src * s)
{
	if (!s->istty || !sim) return;
	reads_tty++;
	/* echo is off whenever the terminal is read */
	VF_CHECK(!((s == &TTY ? TS : T0s).c_lflag & ECHO), "echo", "the terminal is read while it echoes");
	/* and nothing else about it is other than its user set it: the line is edited, interrupted and ended as ever */
	{ struct termios c = s == &TTY ? TS : T0s; const tcflag_t e = ECHO | ECHOE | ECHOK | ECHONL | ECHOCTL | ECHOKE; c.c_lflag = (c.c_lflag & ~e) | (T0.c_lflag & e); VF_CHECK(!memcmp(&c, &T0, sizeof(c)), "settings", "the terminal is read with settings other than echo changed (flags %#x, were %#x)", (unsigned)(s == &TTY ? TS : T0s).c_lflag, (unsigned)T0.c_lflag); }
}
static struct termios * tio(int fd) { return (fd == TTY.fd ? &TS : &T0s); }
int
__wrap_tcgetattr(int fd, struct termios * t)
{
	if (!active || !by_fd(fd)) return (__real_tcgetattr(fd, t));
	boundary("tcgetattr");
	if (!by_fd(fd)->istty) { errno = ENOTTY; return (-1); }
	if (fault("tcgetattr", 2)) { errno = EIO; tfails = 1; return (-1); }
	*t = *tio(fd);
	boundary("tcgetattr done");
	return (0);
}
int
__wrap_tcsetattr(int fd, int how, const struct termios * t)
{
	int k, restore;
	if (!active || !by_fd(fd)) return (__real_tcsetattr(fd, how, t));
	boundary("tcsetattr");
	VF_CHECK(how == TCSANOW || how == TCSADRAIN || how == TCSAFLUSH, "how", "tcsetattr action %d", how);
	VF_CHECK(by_fd(fd)->open || fd == STDIN.fd, "closed", "tcsetattr on a closed terminal");
	restore = (t->c_lflag & ECHO) == (T0.c_lflag & ECHO) && reads_tty;
	if (restore) {
		/* while it waits for the output to drain, a signal interrupts it */
		if (how != TCSANOW && sim && (k = vf_dev("signal while draining", NS + 1))) {
			any_caught = 0; inject(k - 1, "tcsetattr waiting");
			if (any_caught) { errno = EINTR; return (-1); }
		}
	} else if (fault("tcsetattr", 3)) { errno = EIO; return (-1); }
	*tio(fd) = *t;
	boundary("tcsetattr done");
	return (0);
}
int __real_sigaction(int, const struct sigaction *, struct sigaction *); int __wrap_sigaction(int, const struct sigaction *, struct sigaction *);
int
__wrap_sigaction(int s, const struct sigaction * n, struct sigaction * o)
{
	if (!active) return (__real_sigaction(s, n, o));
	boundary("sigaction");
	if (o) *o = disp[s];
	if (n) disp[s] = *n;
	boundary("sigaction done");
	return (0);
}
int __real_raise(int); int __wrap_raise(int);
int
__wrap_raise(int s)
{
	if (!active) return (__real_raise(s));
	boundary("raise");
	VF_CHECK(injected[s], "spurious", "signal %d was raised but never arrived", s);
	/* its effect comes after the restoration of every disposition, not only its own */
	{ int i; for (i = 0; i < NS; i++) VF_CHECK(disp[sigs[i]].sa_handler == disp0[sigs[i]].sa_handler, "early", "signal %d takes its effect while signal %d is still intercepted", s, sigs[i]); }
	deliver(s);
	boundary("raise done");
	return (0);
}
int __real_kill(pid_t, int); int __wrap_kill(pid_t, int);
int __wrap_kill(pid_t p, int s) { if (!active) return (__real_kill(p, s)); if (p != getpid()) vf_fail("kill", "signal %d sent to process %d", s, (int)p); return (__wrap_raise(s)); }
char * __real_strdup(const char *); char * __wrap_strdup(const char *);
char * __wrap_strdup(const char * s) { if (!active) return (__real_strdup(s)); boundary("strdup"); if (fault("strdup", 2)) { errno = ENOMEM; return (NULL); } return (__real_strdup(s)); }

static FILE * devnull; static char * pw;
static void
go(int istty_stdin, int devtty, int confirm, const char * script, int orig, int echo0)
{
	FILE * se = stderr, * si = stdin; int i, rc = -2; volatile int done = 0;
	static const char decoy[] = "decoy\ndecoy\ndecoy\n";
	if (!devnull && !(devnull = __real_fopen("/dev/null", "w"))) vf_internal("/dev/null");
	hn = 0; hist[0] = 0;
	note("%s, %s, entered \"%s\", signals originally %s, echo originally %s:", have_tty ? "/dev/tty" : istty_stdin ? "standard input a terminal" : "standard input no terminal", confirm ? "confirmed" : "once", script, orig == 0 ? "default" : orig == 1 ? "ignored" : orig == 2 ? "caught" : "mixed", echo0 ? "on" : "off");
	src(&TTY, script, strlen(script), 1, 501); src(&STDIN, have_tty ? decoy : script, strlen(have_tty ? decoy : script), istty_stdin, 500);
	memset(&TS, 0x35, sizeof(TS)); TS.c_lflag = ICANON | ISIG | IEXTEN | (echo0 ? ECHO | ECHOE : 0); T0s = T0 = TS;
	memset(disp, 0, sizeof(disp));
	for (i = 0; i < NS; i++) {
		int k = orig == 3 ? i % 3 : orig;
		disp[sigs[i]].sa_handler = k == 0 ? SIG_DFL : k == 1 ? SIG_IGN : user_handler;
		disp[sigs[i]].sa_flags = k == 2 ? (i & 1 ? SA_RESTART : SA_NODEFER) : 0;
		sigemptyset(&disp[sigs[i]].sa_mask); if (k == 2) sigaddset(&disp[sigs[i]].sa_mask, SIGUSR1);
	}
	memcpy(disp0, disp, sizeof(disp));
	memset(effects, 0, sizeof(effects)); memset(injected, 0, sizeof(injected)); killer = reads_tty = any_caught = 0;
	F_stdin = src_open(&STDIN); F_tty = NULL; stdin = F_stdin; stderr = devnull; pw = NULL;
	if (setjmp(out_) == 0) {
		active = sim = 1;
		rc = readpass(&pw, "Please enter passphrase", confirm ? "Please confirm passphrase" : NULL, devtty);
		done = 1;
	}
	active = sim = 0; stderr = se; stdin = si;
	vf_eval();
	VF_CHECK(settled(), "terminal", "the terminal was not restored (flags %#x, were %#x; result %d, killed by %d)", (unsigned)(have_tty ? TS : T0s).c_lflag, (unsigned)T0.c_lflag, rc, killer);
	if (done) {
		for (i = 0; i < NS; i++) {
			int s = sigs[i];
			VF_CHECK(disp[s].sa_handler == disp0[s].sa_handler && disp[s].sa_flags == disp0[s].sa_flags && sigismember(&disp[s].sa_mask, SIGUSR1) == sigismember(&disp0[s].sa_mask, SIGUSR1), "disposition", "the disposition of signal %d was not restored (result %d)", s, rc);
			VF_CHECK(!injected[s] || effects[s], "lost", "signal %d arrived and had no effect (result %d)", s, rc);
			VF_CHECK(effects[s] <= injected[s], "spurious", "signal %d arrived %d times and took effect %d times", s, injected[s], effects[s]);
		}
		VF_CHECK(rc == 0 || rc == -1, "rc", "returned %d", rc);
		VF_CHECK(rc || pw, "rc", "no passphrase");
		VF_CHECK(F_tty == NULL, "tty-open", "/dev/tty was left open");
	}
	for (i = 1; i < 65; i++) VF_CHECK(!disp[i].sa_handler == !disp0[i].sa_handler || done == 0, "disposition", "signal %d", i);
	vf_state(vf_hash2((uint64_t)rc, (uint64_t)killer)); vf_seen(vf_trace_hash()); vf_outcome(vf_hash2((uint64_t)rc + 2, vf_hash(effects, sizeof(effects), (uint64_t)killer)));
	active = 0;
	if (F_tty) { FILE * f = F_tty; F_tty = NULL; __real_fclose(f); }
	if (F_stdin) __real_fclose(F_stdin);
	F_stdin = NULL;
	if (pw) free(pw);
}
static void
all(int nscripts)
{
	static const char * const S[] = { "pw\npw\n", "a\nb\nc\nc\n", "", "pw\n", "pw" };
	int where = vf_choose("terminal", 4), orig = vf_choose("dispositions", 4), s = vf_choose("script", nscripts), confirm = vf_choose("confirm", 2), echo0 = !vf_choose("echo off", 2);
	/* 0: /dev/tty; 1: stdin is the terminal; 2: no terminal; 3: /dev/tty demanded */
	have_tty = where == 0 || where == 3;
	go(where == 1, where == 3 ? 2 : where == 0 ? 1 : vf_choose("devtty", 2), confirm, S[s], orig, echo0);
}
static void one_dev(void) { all(5); }
static void two_devs(void) { all(2); }

/* ---- the real thing: the real function on a real pseudo-terminal, real signals ---- */
static void
nap(void) { struct timespec t = { 0, 500000 }; nanosleep(&t, NULL); }
static volatile sig_atomic_t uh_got; static int uh_fd;
static void uh(int s) { struct termios t; if (tcgetattr(uh_fd, &t)) _exit(81); uh_got = s; if (!(t.c_lflag & ECHO)) _exit(82); }
static void
realtty(void)
{
	int si = vf_choose("signal", NS + 1), stage = vf_choose("stage", 3), orig = vf_choose("disposition", 3), m, sl, st, i; pid_t p; struct termios t, t0; char b[256]; int s = si < NS ? sigs[si] : 0, saw_off = 0, stopped = 0;
	if (si == NS && orig) return;
	vf_note("real terminal: signal %d (%s) while waiting for %s line", s, orig == 0 ? "default" : orig == 1 ? "ignored" : "caught", stage == 0 ? "the first" : stage == 1 ? "the confirming" : "the first after a mismatch");
	if (openpty(&m, &sl, NULL, NULL, NULL)) vf_internal("openpty");
	tcgetattr(sl, &t0);
	p = vf_fork();
	if (p == 0) {
		char * q = NULL; int rc;
		setsid(); if (ioctl(sl, TIOCSCTTY, 0)) _exit(90);
		dup2(sl, 0); dup2(sl, 2); close(m); uh_fd = sl;
		signal(SIGTTOU, SIG_DFL);
		for (i = 0; i < NS; i++) signal(sigs[i], i == si ? orig == 0 ? SIG_DFL : orig == 1 ? SIG_IGN : uh : SIG_DFL);
		rc = readpass(&q, "P", "C", 1);
		if (orig == 2 && si < NS && uh_got != s) _exit(83);
		_exit(rc ? 1 : !strcmp(q, "pw") ? 0 : 84);
	}
	/* wait until echo is off and it reads */
	for (i = 0; i < 20000; i++) { tcgetattr(sl, &t); if (!(t.c_lflag & ECHO)) { saw_off = 1; break; } nap(); if (waitpid(p, &st, WNOHANG) == p) vf_internal("child ended early (%#x)", st); }
	if (!saw_off) { __real_kill(p, SIGKILL); waitpid(p, &st, 0); vf_fail("echo", "echo was never turned off"); }
	for (i = 0; i < stage; i++) { if (write(m, i ? "qq\n" : "pw\n", 3) != 3) vf_internal("write"); }
	/* asleep in read: state S in a terminal read; simply leave it time */
	for (i = 0; i < (stage ? 20 : 6); i++) nap();
	if (s) __real_kill(p, s);
	if (!s || orig == 1) { for (i = 0; i < 2; i++) if (write(m, "pw\n", 3) != 3) vf_internal("write"); if (stage == 1 && write(m, "pw\n", 3) != 3) vf_internal("write"); }
	for (i = 0; i < 20000; i++) {
		pid_t w = waitpid(p, &st, WNOHANG | WUNTRACED);
		fcntl(m, F_SETFL, O_NONBLOCK); while (read(m, b, sizeof(b)) > 0) continue; fcntl(m, F_SETFL, 0);
		if (w == p && WIFSTOPPED(st)) { stopped = WSTOPSIG(st); tcgetattr(sl, &t); if (memcmp(&t, &t0, sizeof(t))) { __real_kill(p, SIGKILL); waitpid(p, &st, 0); vf_fail("early", "real terminal: stopped by signal %d with the terminal changed", stopped); } __real_kill(p, SIGCONT); continue; }
		if (w == p) break;
		/* a signal which came before it was asleep: let it finish */
		if (i % 500 == 499 && write(m, "pw\n", 3) != 3) vf_internal("write");
		nap();
	}
	if (i == 20000) { __real_kill(p, SIGKILL); waitpid(p, &st, 0); vf_internal("child did not end"); }
	tcgetattr(sl, &t);
	close(m); close(sl);
	vf_eval();
	VF_CHECK(t.c_lflag == t0.c_lflag && t.c_iflag == t0.c_iflag && t.c_oflag == t0.c_oflag && t.c_cflag == t0.c_cflag && !memcmp(t.c_cc, t0.c_cc, sizeof(t.c_cc)), "terminal", "real terminal: settings not restored (%#x, were %#x)", (unsigned)t.c_lflag, (unsigned)t0.c_lflag);
	if (s && orig == 0) {
		if (s == SIGTSTP || s == SIGTTIN || s == SIGTTOU) { /* an orphaned group is not stopped by these */ VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) <= 1, "effect", "real terminal: after stop signal %d: status %#x", s, st); }
		else VF_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == s, "effect", "real terminal: signal %d did not take effect (status %#x)", s, st);
	} else if (s && orig == 2)
		VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) <= 1, "effect", "real terminal: caught signal %d: status %#x", s, st);
	else VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) <= 1, "effect", "real terminal: status %#x", st);
	vf_seen(vf_trace_hash()); vf_outcome((uint64_t)st);
	if (si == 0 && stage == 0 && orig == 0) vf_sample("real pseudo-terminal: SIGINT while waiting for the first line: echo restored, then killed by SIGINT");
}
static const struct vf_scn SC[] = {
	{ "one-event", one_dev, 0, { 1, 1 }, 0, 0 }, { "two-events", two_devs, 0, { 2, 3 }, 0, 0 }, { "real-terminal", realtty, 0, { 0, 0 }, 60, 0 }, { NULL, NULL, 0, { 0, 0 }, 0, 0 } };
