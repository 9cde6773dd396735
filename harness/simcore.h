/* Deterministic simulation of threads, locks and time.
 *
 * Every thread is a fiber on one OS thread.  The code under test is compiled
 * with -fsanitize-coverage (edges, loads, stores), so control may pass to
 * another fiber at every memory access and branch of it.  Time is virtual: it
 * creeps while code runs and jumps to the next deadline when all fibers are
 * blocked.  A run is a pure function of the case seed. */
#ifndef SIMCORE_H
#define SIMCORE_H
#define SIM_IMPL
#include "simwrap.h"
#include "common.h"
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>

#define SEC 1000000000ull
#define MSEC 1000000ull
#define USEC 1000ull
#define NEVER (~0ull)
#define SIM_MAXF 24
#define SIM_STACK (512 * 1024)

enum { F_FREE, F_RUN, F_BLOCK, F_DONE };
enum { B_NONE, B_MUTEX, B_COND, B_JOIN, B_SLEEP, B_SEM };
typedef struct {
	void *sp;
	char *stack;
	void *fake;
	int state, why;
	const void *obj;
	uint64_t deadline;
	bool signalled, timedout, detached;
	unsigned gen, prio;
	void *(*fn)(void *);
	void *arg, *ret;
	bool sigpipe_blocked;
	uint64_t blocked_jump;	/* virtual time that passed in jumps while this fiber was blocked */
	uint64_t rngw;
} sim_fiber;

static struct {
	bool active;
	sim_fiber f[SIM_MAXF];
	int cur, nf;
	uint64_t now;			/* ns since the start of the case */
	uint64_t mono_off, real_off;
	uint32_t dt;			/* ns per step */
	uint64_t steps, maxsteps, since_switch;
	bool noswitch;		/* the running fiber keeps running unless it blocks */
	uint64_t until;			/* steps until the next random switch */
	uint32_t inv;			/* mean number of steps between switches; 0: only when blocking */
	bool pct; unsigned lowprio; uint64_t cp[8]; int ncp;
	unsigned spurious;		/* 1 in n condition waits wakes spuriously; 0: never */
	uint64_t switches, hash, jumps;
	unsigned nocond_sig, woken;	/* signals without / with a waiter */
	bool clock_fail;		/* monotonic clocks unavailable */
	uint64_t rs[2];			/* own RNG: the workload's draws do not depend on the schedule */
	const char *misuse;
} S;
static const void *sim_main_bottom; static size_t sim_main_size;

static uint64_t s_rnd64(void)
{
	uint64_t a = S.rs[0], b = S.rs[1];
	S.rs[0] = b;
	a ^= a << 23;
	S.rs[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
	return S.rs[1] + b;
}
static uint64_t s_rnd(uint64_t n) { return n ? s_rnd64() % n : 0; }

/* ---- context switch ---- */
void sim_swtch(void **save, void *to);
__asm__(
".text\n.globl sim_swtch\n.type sim_swtch,@function\nsim_swtch:\n"
"	pushq %rbp\n	pushq %rbx\n	pushq %r12\n	pushq %r13\n	pushq %r14\n	pushq %r15\n"
"	movq %rsp,(%rdi)\n	movq %rsi,%rsp\n"
"	popq %r15\n	popq %r14\n	popq %r13\n	popq %r12\n	popq %rbx\n	popq %rbp\n	ret\n"
".size sim_swtch,.-sim_swtch\n");

static void sim_fatal(const char *kind, const char *msg);

__attribute__((no_sanitize("address", "undefined"), noinline))
static void sim_to(int k, bool dying)
{
	int me = S.cur;
	if (k == me) return;
	S.switches++;
	S.hash = (S.hash ^ (S.since_switch * 31 + k)) * 0x100000001b3ull;
	S.since_switch = 0;
	S.cur = k;
	sim_fiber *t = &S.f[k];
	__sanitizer_start_switch_fiber(dying ? NULL : &S.f[me].fake,
		k == 0 ? sim_main_bottom : t->stack, k == 0 ? sim_main_size : SIM_STACK);
	sim_swtch(&S.f[me].sp, t->sp);
	__sanitizer_finish_switch_fiber(S.f[me].fake, NULL, NULL);
}

static void sim_wake_expired(void)
{
	for (int i = 0; i < S.nf; i++)
		if (S.f[i].state == F_BLOCK && S.f[i].deadline <= S.now) {
			S.f[i].state = F_RUN;
			S.f[i].timedout = true;
		}
}
static void sim_redraw(void)
{
	S.until = S.inv ? 1 + s_rnd(2 * (uint64_t)S.inv) : 20000 + s_rnd(20000);
}
/* next fiber to run, current one blocked or done if !can_stay */
static int sim_pick(bool can_stay, bool prefer_other)
{
	int c[SIM_MAXF], n = 0;
	sim_wake_expired();
	for (int i = 0; i < S.nf; i++)
		if (S.f[i].state == F_RUN && (i != S.cur || can_stay)) c[n++] = i;
	if (!n) return -1;
	if (n > 1 && can_stay && prefer_other) {
		for (int i = 0; i < n; i++) if (c[i] == S.cur) { c[i] = c[--n]; break; }
	}
	if (S.pct) {
		int b = c[0];
		for (int i = 1; i < n; i++) if (S.f[c[i]].prio > S.f[b].prio) b = c[i];
		return b;
	}
	return c[s_rnd(n)];
}
static void sim_deadlock(void)
{
	char m[400];
	int k = snprintf(m, sizeof m, "all threads are blocked for ever:");
	static const char *const w[] = { "?", "mutex", "condition", "join", "sleep", "semaphore" };
	for (int i = 0; i < S.nf && k < 350; i++)
		if (S.f[i].state == F_BLOCK) k += snprintf(m + k, sizeof m - k, " %d:%s", i, w[S.f[i].why]);
	sim_fatal("deadlock", m);
}
/* block the current fiber; true if woken, false if the deadline passed */
static bool sim_block(int why, const void *obj, uint64_t deadline)
{
	sim_fiber *f = &S.f[S.cur];
	f->state = F_BLOCK; f->why = why; f->obj = obj; f->deadline = deadline;
	f->timedout = false; f->signalled = false;
	for (;;) {
		int k = sim_pick(false, false);
		if (f->state == F_RUN && k < 0) break;	/* expired meanwhile */
		if (k >= 0) {
			if (f->state == F_RUN && s_rnd(2)) break;
			sim_redraw();
			sim_to(k, false);
			break;
		}
		uint64_t d = NEVER;
		for (int i = 0; i < S.nf; i++)
			if (S.f[i].state == F_BLOCK && S.f[i].deadline < d) d = S.f[i].deadline;
		if (d == NEVER) sim_deadlock();
		if (d > S.now) { S.now = d; S.jumps++; }
	}
	f->why = B_NONE; f->obj = NULL;
	return !f->timedout;
}
static void sim_wake(int i) { S.f[i].state = F_RUN; S.f[i].signalled = true; S.f[i].timedout = false; }
static int sim_waiter(int why, const void *obj)
{
	int c[SIM_MAXF], n = 0;
	for (int i = 0; i < S.nf; i++)
		if (S.f[i].state == F_BLOCK && S.f[i].why == why && S.f[i].obj == obj) c[n++] = i;
	return n ? c[s_rnd(n)] : -1;
}

/* ---- yield points ---- */
static void sim_yield_now(void)
{
	sim_redraw();
	if (S.noswitch) return;
	int k = sim_pick(true, true);
	if (k >= 0 && k != S.cur) sim_to(k, false);
}
__attribute__((no_sanitize("address", "undefined")))
static inline void sim_step(void)
{
	if (!S.active) return;
	S.now += S.dt;
	S.steps++;
	S.since_switch++;
	if (S.pct && S.ncp && S.steps >= S.cp[S.ncp - 1]) {
		S.ncp--;
		S.f[S.cur].prio = S.lowprio--;
		sim_yield_now();
		return;
	}
	if (--S.until == 0) {
		if (S.steps > S.maxsteps) sim_fatal("livelock", "the threads keep running without ever finishing");
		if (S.pct) S.f[S.cur].prio = S.lowprio--;	/* do not starve the others for ever */
		sim_yield_now();
	}
}
#define COVCB __attribute__((no_sanitize("address", "undefined"), used))
COVCB void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; sim_step(); }
COVCB void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
COVCB void __sanitizer_cov_load1(uint8_t *p) { (void)p; sim_step(); }
COVCB void __sanitizer_cov_load2(uint16_t *p) { (void)p; sim_step(); }
COVCB void __sanitizer_cov_load4(uint32_t *p) { (void)p; sim_step(); }
COVCB void __sanitizer_cov_load8(uint64_t *p) { (void)p; sim_step(); }
COVCB void __sanitizer_cov_load16(void *p) { (void)p; sim_step(); }
COVCB void __sanitizer_cov_store1(uint8_t *p) { (void)p; sim_step(); }
COVCB void __sanitizer_cov_store2(uint16_t *p) { (void)p; sim_step(); }
COVCB void __sanitizer_cov_store4(uint32_t *p) { (void)p; sim_step(); }
COVCB void __sanitizer_cov_store8(uint64_t *p) { (void)p; sim_step(); }
COVCB void __sanitizer_cov_store16(void *p) { (void)p; sim_step(); }

/* small copies (queue entries) can be observed half done */
static void *sim_copy(void *d, const void *s, size_t n, void *(*real)(void *, const void *, size_t))
{
	if (!S.active || n < 16 || n > 256 || ((char *)d < (char *)s + n && (char *)s < (char *)d + n)) return real(d, s, n);
	for (size_t i = 0; i < n; ) {
		size_t k = n - i < 8 ? n - i : 8;
		memcpy((char *)d + i, (const char *)s + i, k);
		i += k;
		sim_step();
	}
	return d;
}
void *sim_memcpy(void *d, const void *s, size_t n) { return sim_copy(d, s, n, memcpy); }
void *sim_memmove(void *d, const void *s, size_t n) { return sim_copy(d, s, n, memmove); }

/* ---- threads ---- */
static char *sim_stacks[SIM_MAXF];
__attribute__((no_sanitize("address", "undefined")))
static void sim_entry(void)
{
	__sanitizer_finish_switch_fiber(NULL, NULL, NULL);
	sim_fiber *f = &S.f[S.cur];
	f->ret = f->fn(f->arg);
	sim_pthread_exit(f->ret);
}
void sim_pthread_exit(void *ret)
{
	sim_fiber *f = &S.f[S.cur];
	f->ret = ret;
	f->state = f->detached ? F_FREE : F_DONE;
	for (int i = 0; i < S.nf; i++)
		if (S.f[i].state == F_BLOCK && S.f[i].why == B_JOIN && S.f[i].obj == f) sim_wake(i);
	for (;;) {
		int k = sim_pick(false, false);
		if (k >= 0) { sim_redraw(); sim_to(k, true); }
		uint64_t d = NEVER;
		for (int i = 0; i < S.nf; i++)
			if (S.f[i].state == F_BLOCK && S.f[i].deadline < d) d = S.f[i].deadline;
		if (d == NEVER) sim_deadlock();
		if (d > S.now) { S.now = d; S.jumps++; }
	}
}
static int sim_spawn(void *(*fn)(void *), void *arg)
{
	int i;
	for (i = 1; i < SIM_MAXF && S.f[i].state != F_FREE; i++) ;
	if (i == SIM_MAXF) return -1;
	if (!sim_stacks[i]) {
		char *p = mmap(NULL, SIM_STACK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) { fprintf(stderr, "harness: no stack\n"); _exit(99); }
		mprotect(p, 4096, PROT_NONE);
		sim_stacks[i] = p + 4096;
	}
	sim_fiber *f = &S.f[i];
	unsigned gen = f->gen + 1;
	memset(f, 0, sizeof *f);
	f->gen = gen;
	f->stack = sim_stacks[i];
	__asan_unpoison_memory_region(f->stack, SIM_STACK);
	f->fn = fn; f->arg = arg;
	f->prio = 1000 + s_rnd(100000);
	f->deadline = NEVER;
	void **sp = (void **)(f->stack + SIM_STACK - 64);
	*--sp = NULL;			/* alignment and end of the call chain */
	*--sp = (void *)sim_entry;
	for (int r = 0; r < 6; r++) *--sp = NULL;
	f->sp = sp;
	f->state = F_RUN;
	if (i >= S.nf) S.nf = i + 1;
	return i;
}
#define SIM_TID(i) ((pthread_t)(0x51000000ul + (uint64_t)S.f[i].gen * 64 + (i)))
static int sim_of(pthread_t t)
{
	int i = (int)(t & 63);
	return i < SIM_MAXF && SIM_TID(i) == t && S.f[i].state != F_FREE ? i : -1;
}
int sim_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	(void)a;
	int i = sim_spawn(fn, arg);
	if (i < 0) return EAGAIN;
	*t = SIM_TID(i);
	S.f[i].sigpipe_blocked = S.f[S.cur].sigpipe_blocked;
	sim_step();
	return 0;
}
static int sim_join(pthread_t t, void **ret, uint64_t deadline)
{
	int i = sim_of(t);
	if (i < 0) { if (!S.misuse) S.misuse = "join of a thread that does not exist"; return ESRCH; }
	while (S.f[i].state != F_DONE) {
		if (deadline <= S.now) return ETIMEDOUT;
		sim_block(B_JOIN, &S.f[i], deadline);
	}
	if (ret) *ret = S.f[i].ret;
	S.f[i].state = F_FREE;
	return 0;
}
int sim_pthread_join(pthread_t t, void **ret) { sim_step(); return sim_join(t, ret, NEVER); }
static uint64_t sim_deadline_of(clockid_t c, const struct timespec *ts);
int sim_pthread_timedjoin_np(pthread_t t, void **ret, const struct timespec *ts) { return sim_join(t, ret, sim_deadline_of(CLOCK_REALTIME, ts)); }
int sim_pthread_tryjoin_np(pthread_t t, void **ret) { int r = sim_join(t, ret, 0); return r == ETIMEDOUT ? EBUSY : r; }
int sim_pthread_detach(pthread_t t) { int i = sim_of(t); if (i < 0) return ESRCH; if (S.f[i].state == F_DONE) S.f[i].state = F_FREE; else S.f[i].detached = true; return 0; }
pthread_t sim_pthread_self(void) { return SIM_TID(S.cur); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_setname_np(pthread_t t, const char *n) { (void)t; (void)n; return 0; }
int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *o)
{
	sim_fiber *f = &S.f[S.cur];
	if (o) { sigemptyset(o); if (f->sigpipe_blocked) sigaddset(o, SIGPIPE); }
	if (s) {
		bool in = sigismember(s, SIGPIPE) == 1;
		if (how == SIG_BLOCK) f->sigpipe_blocked |= in;
		else if (how == SIG_UNBLOCK) f->sigpipe_blocked &= !in;
		else f->sigpipe_blocked = in;
	}
	return 0;
}

/* ---- mutexes (state lives in a side table: re-initialisation and copies do no harm) ---- */
typedef struct { uint32_t magic, owner1, count, kind; } sim_mx;	/* overlays pthread_mutex_t; all zero = unlocked */
#define MX(m) ((sim_mx *)(m))
#define SIM_DEAD 0xdeadu
_Static_assert(sizeof(sim_mx) <= sizeof(pthread_mutex_t), "mutex size");
static void sim_bad(const char *s) { if (!S.misuse) S.misuse = s; }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	int k = PTHREAD_MUTEX_DEFAULT;
	if (a) pthread_mutexattr_gettype(a, &k);
	memset(m, 0, sizeof *m);
	MX(m)->kind = k;
	sim_step();
	return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m)
{
	sim_step();
	if (MX(m)->owner1) { sim_bad("destroying a locked mutex"); return EBUSY; }
	if (MX(m)->magic == SIM_DEAD) sim_bad("destroying a mutex twice");
	MX(m)->magic = SIM_DEAD;
	return 0;
}
static int sim_lock(pthread_mutex_t *m, uint64_t deadline)
{
	if (MX(m)->magic == SIM_DEAD) sim_bad("locking a destroyed mutex");
	if (MX(m)->owner1 == (uint32_t)S.cur + 1) {
		if (MX(m)->kind == PTHREAD_MUTEX_RECURSIVE) { MX(m)->count++; return 0; }
		if (MX(m)->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	}
	while (MX(m)->owner1) {
		if (deadline <= S.now) return ETIMEDOUT;
		sim_block(B_MUTEX, m, deadline);
	}
	MX(m)->owner1 = S.cur + 1;
	return 0;
}
static int sim_unlock(pthread_mutex_t *m)
{
	if (MX(m)->owner1 != (uint32_t)S.cur + 1) { sim_bad("unlocking a mutex the thread does not hold"); return EPERM; }
	if (MX(m)->count) { MX(m)->count--; return 0; }
	MX(m)->owner1 = 0;
	int i = sim_waiter(B_MUTEX, m);
	if (i >= 0) sim_wake(i);
	return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) { sim_step(); int r = sim_lock(m, NEVER); sim_step(); return r; }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { sim_step(); int r = sim_lock(m, 0); return r == ETIMEDOUT ? EBUSY : r; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { sim_step(); int r = sim_unlock(m); sim_step(); return r; }

/* ---- time ---- */
static bool sim_clock(clockid_t c, uint64_t *v)
{
	switch (c) {
	case CLOCK_REALTIME: *v = S.now + S.real_off; return true;
	case CLOCK_REALTIME_COARSE: *v = (S.now + S.real_off) / (4 * MSEC) * (4 * MSEC); return true;
	case CLOCK_MONOTONIC: case CLOCK_BOOTTIME: *v = S.now + S.mono_off; break;
	case CLOCK_MONOTONIC_RAW: *v = S.now + S.mono_off; break;
	case CLOCK_MONOTONIC_COARSE: *v = (S.now + S.mono_off) / (4 * MSEC) * (4 * MSEC); break;
	case CLOCK_THREAD_CPUTIME_ID: case CLOCK_PROCESS_CPUTIME_ID: *v = S.steps * S.dt; return true;
	default: errno = EINVAL; return false;
	}
	if (S.clock_fail) { errno = EINVAL; return false; }
	return true;
}
static uint64_t sim_deadline_of(clockid_t c, const struct timespec *ts)
{
	uint64_t base = c == CLOCK_MONOTONIC ? S.mono_off : S.real_off;
	if (ts->tv_sec < 0) return 0;
	if ((uint64_t)ts->tv_sec > 1ull << 33) return NEVER - 1;
	uint64_t t = (uint64_t)ts->tv_sec * SEC + ts->tv_nsec;
	return t > base ? t - base : 0;
}
int sim_clock_gettime(clockid_t c, struct timespec *ts)
{
	uint64_t v;
	sim_step();
	if (!sim_clock(c, &v)) return -1;
	ts->tv_sec = v / SEC; ts->tv_nsec = v % SEC;
	return 0;
}
int sim_clock_getres(clockid_t c, struct timespec *ts)
{
	if (ts) { ts->tv_sec = 0; ts->tv_nsec = c == CLOCK_MONOTONIC_COARSE || c == CLOCK_REALTIME_COARSE ? 4000000 : 1; }
	return 0;
}
time_t sim_time(time_t *t) { sim_step(); time_t v = (S.now + S.real_off) / SEC; if (t) *t = v; return v; }
int sim_gettimeofday(struct timeval *tv, void *z) { (void)z; sim_step(); uint64_t v = S.now + S.real_off; tv->tv_sec = v / SEC; tv->tv_usec = v % SEC / 1000; return 0; }
static void sim_sleep_ns(uint64_t ns)
{
	if (!S.active) return;
	uint64_t d = S.now + ns;
	while (S.now < d) sim_block(B_SLEEP, NULL, d);
}
int sim_nanosleep(const struct timespec *a, struct timespec *b) { if (b) memset(b, 0, sizeof *b); sim_sleep_ns((uint64_t)a->tv_sec * SEC + a->tv_nsec); return 0; }
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b)
{
	if (!(fl & TIMER_ABSTIME)) return sim_nanosleep(a, b);
	uint64_t d = sim_deadline_of(c, a);
	if (d > S.now) sim_sleep_ns(d - S.now);
	return 0;
}
int sim_usleep(useconds_t u) { sim_sleep_ns((uint64_t)u * 1000); return 0; }
unsigned sim_sleep(unsigned s) { sim_sleep_ns((uint64_t)s * SEC); return 0; }
int sim_sched_yield(void) { if (S.active) { S.now += S.dt + 1; S.steps++; if (S.steps > S.maxsteps) sim_fatal("livelock", "the threads keep running without ever finishing"); sim_yield_now(); } return 0; }
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { return sim_lock(m, sim_deadline_of(CLOCK_REALTIME, ts)); }

/* ---- condition variables ---- */
typedef struct { uint32_t magic, clock; } sim_cv;
#define CV(c) ((sim_cv *)(c))
#define CA(a) ((uint32_t *)(a))
int sim_pthread_condattr_init(pthread_condattr_t *a) { *CA(a) = CLOCK_REALTIME; return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t *a) { (void)a; return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c)
{
	if (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC) return EINVAL;	/* as glibc */
	*CA(a) = c;
	return 0;
}
int sim_pthread_condattr_getclock(const pthread_condattr_t *a, clockid_t *c) { *c = *CA(a); return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { memset(c, 0, sizeof *c); if (a) CV(c)->clock = *CA(a); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c)
{
	sim_step();
	if (CV(c)->magic == SIM_DEAD) sim_bad("destroying a condition variable twice");
	if (sim_waiter(B_COND, c) >= 0) sim_bad("destroying a condition variable with waiters");
	CV(c)->magic = SIM_DEAD;
	return 0;
}
static int sim_cwait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline)
{
	sim_step();
	if (CV(c)->magic == SIM_DEAD) sim_bad("waiting on a destroyed condition variable");
	if (MX(m)->owner1 != (uint32_t)S.cur + 1) sim_bad("waiting on a condition variable without holding its mutex");
	if (sim_unlock(m)) return EPERM;
	/* POSIX: releasing the mutex and starting to wait are atomic */
	bool woken, expired = deadline <= S.now;
	if (expired) { sim_yield_now(); woken = false; }
	else if (S.spurious && s_rnd(S.spurious) == 0) {
		uint64_t d = S.now + s_rnd(2 * SEC);
		if (d > deadline) d = deadline;
		woken = sim_block(B_COND, c, d) || S.now < deadline;
	} else woken = sim_block(B_COND, c, deadline);
	sim_step();
	sim_lock(m, NEVER);
	return woken ? 0 : ETIMEDOUT;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return sim_cwait(c, m, NEVER); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
	return sim_cwait(c, m, sim_deadline_of(CV(c)->clock, ts));
}
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { return sim_cwait(c, m, sim_deadline_of(k, ts)); }
int sim_pthread_cond_signal(pthread_cond_t *c)
{
	sim_step();
	if (CV(c)->magic == SIM_DEAD) sim_bad("signalling a destroyed condition variable");
	int i = sim_waiter(B_COND, c);
	if (i >= 0) { sim_wake(i); S.woken++; } else S.nocond_sig++;
	sim_step();
	return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t *c)
{
	int i;
	sim_step();
	if (CV(c)->magic == SIM_DEAD) sim_bad("signalling a destroyed condition variable");
	while ((i = sim_waiter(B_COND, c)) >= 0) { sim_wake(i); S.woken++; }
	sim_step();
	return 0;
}

/* ---- the less common ones ---- */
typedef struct { int32_t readers, writer1; } sim_rw;
#define RW(l) ((sim_rw *)(l))
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { (void)a; memset(l, 0, sizeof *l); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *l) { (void)l; return 0; }
static void sim_wake_all(int why, const void *o) { int i; while ((i = sim_waiter(why, o)) >= 0) sim_wake(i); }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { sim_step(); while (RW(l)->writer1) sim_block(B_MUTEX, l, NEVER); RW(l)->readers++; return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) { sim_step(); while (RW(l)->writer1 || RW(l)->readers) sim_block(B_MUTEX, l, NEVER); RW(l)->writer1 = S.cur + 1; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *l)
{
	sim_step();
	if (RW(l)->writer1 == S.cur + 1) RW(l)->writer1 = 0;
	else if (RW(l)->readers) RW(l)->readers--;
	else { sim_bad("unlocking a lock that is not held"); return EPERM; }
	sim_wake_all(B_MUTEX, l);
	return 0;
}
int sim_pthread_spin_init(pthread_spinlock_t *l, int s) { (void)s; *l = 0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *l) { (void)l; return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *l) { sim_step(); while (*l) sim_block(B_MUTEX, (void *)l, NEVER); *l = S.cur + 1; return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t *l) { sim_step(); if (*l) return EBUSY; *l = S.cur + 1; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t *l) { sim_step(); if (*l != S.cur + 1) sim_bad("unlocking a spin lock the thread does not hold"); *l = 0; sim_wake_all(B_MUTEX, (void *)l); return 0; }
int sim_pthread_once(pthread_once_t *o, void (*fn)(void))
{
	sim_step();
	if (*o == 2) return 0;
	if (*o == 1) { while (*o == 1) sim_sleep_ns(1000); return 0; }
	*o = 1; fn(); *o = 2;
	return 0;
}
typedef struct { int32_t v; } sim_sm;
#define SM(s) ((sim_sm *)(s))
int sim_sem_init(sem_t *s, int sh, unsigned v) { (void)sh; memset(s, 0, sizeof *s); SM(s)->v = v; return 0; }
int sim_sem_destroy(sem_t *s) { (void)s; return 0; }
int sim_sem_post(sem_t *s) { sim_step(); SM(s)->v++; int i = sim_waiter(B_SEM, s); if (i >= 0) sim_wake(i); return 0; }
static int sim_swait(sem_t *s, uint64_t d)
{
	sim_step();
	while (SM(s)->v == 0) { if (d <= S.now) { errno = ETIMEDOUT; return -1; } sim_block(B_SEM, s, d); }
	SM(s)->v--;
	return 0;
}
int sim_sem_wait(sem_t *s) { return sim_swait(s, NEVER); }
int sim_sem_trywait(sem_t *s) { int r = sim_swait(s, 0); if (r) errno = EAGAIN; return r; }
int sim_sem_timedwait(sem_t *s, const struct timespec *ts) { return sim_swait(s, sim_deadline_of(CLOCK_REALTIME, ts)); }

/* ---- life cycle ---- */
static void sim_begin(void)
{
	unsigned gens[SIM_MAXF];
	for (int i = 0; i < SIM_MAXF; i++) gens[i] = S.f[i].gen;
	memset(&S, 0, sizeof S);
	for (int i = 0; i < SIM_MAXF; i++) S.f[i].gen = gens[i];
	S.rs[0] = rnd64(); S.rs[1] = rnd64() | 1;
	S.nf = 1;
	S.f[0].state = F_RUN; S.f[0].gen++; S.f[0].deadline = NEVER; S.f[0].prio = 1000 + s_rnd(100000);
	static const uint32_t dts[] = { 5, 20, 100 };
	S.dt = dts[s_rnd(3)];
	S.maxsteps = 30000000;
	/* time since boot and the date: ordinary, or about to pass 2^31 or 2^32 milliseconds or seconds */
	static const uint64_t up[] = { 2147483648ull * MSEC, 4294967296ull * MSEC, 300000000ull * SEC }, date[] = { 2147483648ull * SEC, 4294967296ull * SEC };
	S.mono_off = s_rnd(4) ? (1000 + s_rnd(1000000)) * SEC + s_rnd(SEC) : up[s_rnd(3)] - s_rnd(s_rnd(2) ? 30 * SEC : 300 * SEC);
	S.real_off = s_rnd(8) ? (1600000000ull + s_rnd(100000000)) * SEC + s_rnd(SEC) : date[s_rnd(2)] - s_rnd(s_rnd(2) ? 30 * SEC : 300 * SEC);
	S.lowprio = 999;
	static const uint32_t invs[] = { 2, 8, 32, 200, 1000, 0 };
	S.inv = invs[s_rnd(6)];
	if (s_rnd(4) == 0) {
		S.pct = true; S.inv = 0;
		S.ncp = s_rnd(5);
		for (int i = 0; i < S.ncp; i++) S.cp[i] = s_rnd(s_rnd(2) ? 3000 : 60000);
		for (int i = 0; i < S.ncp; i++) for (int j = i + 1; j < S.ncp; j++)
			if (S.cp[j] > S.cp[i]) { uint64_t t = S.cp[i]; S.cp[i] = S.cp[j]; S.cp[j] = t; }
	}
	sim_redraw();
	S.active = true;
}
/* fibers still alive? */
static int sim_alive(void)
{
	int n = 0;
	for (int i = 1; i < S.nf; i++) n += S.f[i].state == F_RUN || S.f[i].state == F_BLOCK;
	return n;
}
static void sim_end(void)
{
	S.active = false;
	for (int i = 1; i < SIM_MAXF; i++) S.f[i].state = F_FREE;
}
static void sim_stack_bounds(void)
{
	pthread_attr_t a;
	void *p; size_t n;
	pthread_getattr_np(pthread_self(), &a);
	pthread_attr_getstack(&a, &p, &n);
	pthread_attr_destroy(&a);
	sim_main_bottom = p; sim_main_size = n;
}
#endif
