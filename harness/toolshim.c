/* Linked into the instrumented programs by the checks (never into /repo):
 * system calls libevent makes are shortened, interrupted, reordered and failed
 * at random, and the wall clock is read from a page shared with the driver. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

struct page {
	int64_t clock;		/* seconds since the epoch, 0: the real clock */
	int32_t no_leaks;	/* skip the leak check at exit */
	int32_t quiet;		/* stop injecting */
	uint64_t reads, writes, accepts, waits, injected;
	int32_t full_errno;	/* what EFBIG of the stdio functions is turned into */
	int32_t pad[9];		/* (memhook.c counts here) */
	int64_t mono;		/* seconds the monotonic clocks are ahead */
};
static struct page local, *pg = &local;
static uint64_t rs;
static unsigned p_read, p_write, p_wait, p_accept;	/* per mille */

static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static bool chance(unsigned p) { return rs && !pg->quiet && rnd() % 1000 < p; }

__attribute__((constructor)) static void shim_init(void)
{
	const char *s = getenv("SHIM"), *c = getenv("SHIM_PAGE");
	unsigned long long seed;
	if (c != NULL) {
		int fd = open(c, O_RDWR | O_CLOEXEC);
		void *m = fd < 0 ? MAP_FAILED : mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (m == MAP_FAILED) _exit(98);
		close(fd);
		pg = m;
	}
	if (s != NULL && sscanf(s, "%llu:%u:%u:%u:%u", &seed, &p_read, &p_write, &p_wait, &p_accept) == 5) {
		rs = seed * 0x9e3779b97f4a7c15ull | 1;
		for (int i = 0; i < 8; i++) rnd();
	}
}

int __lsan_is_turned_off(void) { return pg->no_leaks; }

static size_t shorten(struct iovec *out, const struct iovec *iov, int *n, size_t limit)
{
	size_t t = 0;
	int i;
	for (i = 0; i < *n && t < limit; i++) {
		out[i] = iov[i];
		if (out[i].iov_len > limit - t) out[i].iov_len = limit - t;
		t += out[i].iov_len;
	}
	*n = i;
	return t;
}
static size_t total(const struct iovec *iov, int n)
{
	size_t t = 0;
	for (int i = 0; i < n; i++) t += iov[i].iov_len;
	return t;
}
static size_t some(size_t t)
{
	switch (rnd() % 4) {
	case 0: return 1 + rnd() % (t < 8 ? t : 8);
	case 1: return 1 + rnd() % (t < 64 ? t : 64);
	default: return 1 + rnd() % t;
	}
}

ssize_t readv(int fd, const struct iovec *iov, int n)
{
	struct iovec v[16];
	pg->reads++;
	if (n > 0 && n <= 16 && chance(p_read)) {
		size_t t = total(iov, n);
		pg->injected++;
		if (rnd() % 16 == 0) { errno = rnd() % 2 ? EINTR : EAGAIN; return -1; }
		if (t > 0) {
			shorten(v, iov, &n, some(t));
			return syscall(SYS_readv, fd, v, n);
		}
	}
	return syscall(SYS_readv, fd, iov, n);
}

ssize_t writev(int fd, const struct iovec *iov, int n)
{
	struct iovec v[16];
	pg->writes++;
	if (fd > 2 && n > 0 && n <= 16 && chance(p_write)) {
		size_t t = total(iov, n);
		pg->injected++;
		if (rnd() % 8 == 0) { errno = rnd() % 2 ? EINTR : EAGAIN; return -1; }
		if (t > 0) {
			shorten(v, iov, &n, some(t));
			return syscall(SYS_writev, fd, v, n);
		}
	}
	return syscall(SYS_writev, fd, iov, n);
}

int accept4(int fd, struct sockaddr *sa, socklen_t *len, int flags)
{
	pg->accepts++;
	if (chance(p_accept)) {
		static const int e[] = { EINTR, ECONNABORTED, EMFILE, ENFILE, ENOMEM, EAGAIN };
		pg->injected++;
		errno = e[rnd() % 6];
		return -1;
	}
	return syscall(SYS_accept4, fd, sa, len, flags);
}

/* Level-triggered: what is left out now is reported again. */
int epoll_wait(int ep, struct epoll_event *ev, int max, int timeout)
{
	pg->waits++;
	if (pg->mono && timeout > 20) timeout = 20;	/* time may pass meanwhile */
	int n = syscall(SYS_epoll_pwait, ep, ev, max, timeout, NULL, 8);
	if (n > 1 && chance(p_wait)) {
		pg->injected++;
		for (int i = n - 1; i > 0; i--) {
			int j = rnd() % (i + 1);
			struct epoll_event t = ev[i];
			ev[i] = ev[j];
			ev[j] = t;
		}
		if (rnd() % 2) n = 1 + rnd() % n;
	}
	return n;
}

time_t __wrap_time(time_t *t)
{
	time_t v = pg->clock ? pg->clock : syscall(SYS_time, NULL);
	if (t != NULL) *t = v;
	return v;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
	(void)tz;
	if (pg->clock) { tv->tv_sec = pg->clock; tv->tv_usec = 0; return 0; }
	return syscall(SYS_gettimeofday, tv, NULL);
}
/* (also seen by libevent) */
int clock_gettime(clockid_t c, struct timespec *ts)
{
	int r = syscall(SYS_clock_gettime, c, ts);
	if (r == 0 && (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME)) ts->tv_sec += pg->mono;
	return r;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
	if (pg->clock && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { ts->tv_sec = pg->clock; ts->tv_nsec = 0; return 0; }
	return clock_gettime(c, ts);
}

/* A device that is full: the file size limit makes the writes fail, with any cause. */
static void cause(void) { if (errno == EFBIG && pg->full_errno) { errno = pg->full_errno; pg->injected++; } }
size_t __real_fwrite(const void *p, size_t s, size_t n, FILE *f);
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f)
{
	size_t r = __real_fwrite(p, s, n, f);
	if (r != n) cause();
	return r;
}
int __real_fflush(FILE *f);
int __wrap_fflush(FILE *f)
{
	int r = __real_fflush(f);
	if (r != 0) cause();
	return r;
}
int __real_fclose(FILE *f);
int __wrap_fclose(FILE *f)
{
	int r = __real_fclose(f);
	if (r != 0) cause();
	return r;
}
