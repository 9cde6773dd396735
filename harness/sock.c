/* P10, P08, P09: the Unix and TCP writers over real sockets, with a peer
 * thread, short and interrupted system calls and injected failures.
 * Linked with --wrap for every system call the transports may use. */
#define _GNU_SOURCE
#include "common.h"
#include "ref.h"
#include <fstrm.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/eventfd.h>

static bool h_leak_mode(const char *m) { (void)m; return true; }
static bool mode_is(const char *m) { return !strcmp(h_mode, m); }
static __thread bool lib;		/* the library is running on this thread */
#define V(tag, ...) do { if (mode_is(tag)) { bool l_ = lib; lib = false; violation(__VA_ARGS__); lib = l_; } } while (0)

/* ------------------------------------------------------------------ system call shims */
int __real_socket(int, int, int);
int __real_connect(int, const struct sockaddr *, socklen_t);
int __real_close(int);
ssize_t __real_sendmsg(int, const struct msghdr *, int);
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_readv(int, const struct iovec *, int);
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *);
ssize_t __real_recvmsg(int, struct msghdr *, int);

static struct {
	int own, fd[8];			/* descriptors the transport holds */
	bool conn[8];
	unsigned pshort, peintr, pfail, pconn, psock, pclose, prfail;	/* per 1000 */
	bool sawfail;			/* a failure was injected into this session */
	unsigned nshort, neintr, nfail;
	int sndbuf, nodelay;
	int connects;			/* connections established with the peer */
	int live;
	size_t wtotal;			/* bytes the kernel accepted in this session */
} K;
static int own(int fd) { for (int i = 0; i < K.own; i++) if (K.fd[i] == fd) return i; return -1; }
int __wrap_socket(int d, int t, int p)
{
	if (!lib) return __real_socket(d, t, p);
	if (rnd(1000) < K.psock) { K.sawfail = true; K.nfail++; errno = rnd(2) ? EMFILE : ENOBUFS; return -1; }
	int fd = __real_socket(d, t, p);
	if (fd >= 0) {
		if (K.own >= 1) V("P08", "leak-fd", "the transport creates a descriptor while it still holds another");
		if (K.own < 8) { K.conn[K.own] = false; K.fd[K.own++] = fd; }
		if (d != AF_UNIX && K.nodelay) { int on = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on); }
		if (K.sndbuf) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &K.sndbuf, sizeof K.sndbuf);
	}
	return fd;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n)
{
	if (!lib) return __real_connect(fd, a, n);
	int i = own(fd);
	if (i < 0) V("P08", "foreign-fd", "connect on descriptor %d the transport does not hold", fd);
	if (rnd(1000) < K.pconn) { K.sawfail = true; K.nfail++; errno = rnd(2) ? ECONNREFUSED : EINTR; return -1; }
	sigset_t s, o;
	sigfillset(&s);
	pthread_sigmask(SIG_BLOCK, &s, &o);
	int r = __real_connect(fd, a, n);
	int e = errno;
	pthread_sigmask(SIG_SETMASK, &o, NULL);
	errno = e;
	if (r == 0) { K.connects++; if (i >= 0) K.conn[i] = true; }
	return r;
}
int __wrap_close(int fd)
{
	if (!lib) return __real_close(fd);
	int i = own(fd);
	if (i < 0) { V("P08", "close-foreign", "close of descriptor %d the transport does not hold", fd); V("P10", "close-foreign", "close of descriptor %d the transport does not hold", fd); return __real_close(fd); }
	K.own--;
	for (; i < K.own; i++) { K.fd[i] = K.fd[i + 1]; K.conn[i] = K.conn[i + 1]; }
	int r = __real_close(fd);
	if (rnd(1000) < K.pclose) { K.sawfail = true; K.nfail++; errno = rnd(2) ? EIO : EINTR; return -1; }
	return r;
}
/* Limits the transport itself sets on waiting run 100 times faster, for peers that take their time. */
int __real_setsockopt(int, int, int, const void *, socklen_t);
int __wrap_setsockopt(int fd, int level, int opt, const void *v, socklen_t n)
{
	if (lib && level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && n == sizeof(struct timeval)) {
		struct timeval t = *(const struct timeval *)v;
		int64_t us = (t.tv_sec * 1000000LL + t.tv_usec + 99) / 100;
		t.tv_sec = us / 1000000;
		t.tv_usec = us % 1000000;
		return __real_setsockopt(fd, level, opt, &t, n);
	}
	if (lib && level == IPPROTO_TCP && opt == TCP_USER_TIMEOUT && n == sizeof(int)) {
		int ms = (*(const int *)v + 99) / 100;
		return __real_setsockopt(fd, level, opt, &ms, n);
	}
	return __real_setsockopt(fd, level, opt, v, n);
}
int __real_poll(struct pollfd *, nfds_t, int);
int __wrap_poll(struct pollfd *f, nfds_t n, int ms) { return __real_poll(f, n, lib && ms > 0 ? (ms + 99) / 100 : ms); }
int __real_ppoll(struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
int __wrap_ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *m)
{
	struct timespec u;
	if (lib && t != NULL) { int64_t ns = (t->tv_sec * 1000000000LL + t->tv_nsec) / 100; u = (struct timespec) { ns / 1000000000, ns % 1000000000 }; t = &u; }
	return __real_ppoll(f, n, t, m);
}
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t)
{
	struct timeval u;
	if (lib && t != NULL) { int64_t us = (t->tv_sec * 1000000LL + t->tv_usec + 99) / 100; u = (struct timeval) { us / 1000000, us % 1000000 }; t = &u; }
	return __real_select(n, r, w, x, t);
}
static bool fault(int fd, bool rd)
{
	int i = own(fd);
	if (i < 0 || !K.conn[i]) V("P08", "io-not-open", "%s on a descriptor that is not an open connection", rd ? "read" : "write");
	if (rnd(1000) < K.peintr) { K.neintr++; errno = EINTR; return true; }
	if (rnd(1000) < (rd ? K.prfail : K.pfail)) {
		static const int e[] = { ECONNRESET, EPIPE, ENOBUFS, EIO, ETIMEDOUT };
		K.sawfail = true; K.nfail++; errno = e[rnd(5)]; return true;
	}
	return false;
}
static ssize_t put(int fd, const struct msghdr *m, int flags)
{
	if (fault(fd, false)) return -1;
	size_t tot = 0;
	struct iovec v[1100];
	int n = (int)m->msg_iovlen;
	if (n > 1024) { errno = EMSGSIZE; K.sawfail = true; return -1; }
	for (int i = 0; i < n; i++) { v[i] = m->msg_iov[i]; tot += v[i].iov_len; }
	struct msghdr h = *m;
	h.msg_iov = v;
	if (tot > 1 && rnd(1000) < K.pshort) {
		size_t k;
		switch (rnd(4)) {
		case 0: k = 1 + rnd(tot < 5 ? tot - 1 : 4); break;
		case 1: { size_t s = 0; int c = 1 + rnd(n); for (int i = 0; i < c; i++) s += v[i].iov_len; k = s ? s : 1; break; }	/* an iovec boundary */
		case 2: k = tot - 1 - rnd(tot < 5 ? tot - 1 : 4); break;
		default: k = 1 + rnd(tot - 1);
		}
		if (k < 1) k = 1;
		if (k < tot) K.nshort++;
		for (int i = 0; i < n; i++) { if (v[i].iov_len > k) v[i].iov_len = k; k -= v[i].iov_len; }
	}
	ssize_t r = __real_sendmsg(fd, &h, flags);
	if (r > 0) { K.wtotal += r; if ((size_t)r < tot) COUNT("short-writes"); }
	else if (r < 0 && errno == EINTR) COUNT("real-eintr");
	return r;
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int f) { return lib ? put(fd, m, f) : __real_sendmsg(fd, m, f); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t al)
{
	if (!lib) return __real_sendto(fd, b, n, f, a, al);
	struct iovec v = { (void *)b, n };
	struct msghdr m = { .msg_iov = &v, .msg_iovlen = 1, .msg_name = (void *)a, .msg_namelen = al };
	return put(fd, &m, f);
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { return lib ? __wrap_sendto(fd, b, n, f, NULL, 0) : __real_send(fd, b, n, f); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return lib ? __wrap_sendto(fd, b, n, 0, NULL, 0) : __real_write(fd, b, n); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c)
{
	if (!lib) return __real_writev(fd, v, c);
	struct msghdr m = { .msg_iov = (struct iovec *)v, .msg_iovlen = c };
	return put(fd, &m, 0);
}
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int f)
{
	if (!lib) return __real_recvmsg(fd, m, f);
	if (fault(fd, true)) return -1;
	struct iovec v[64];
	struct msghdr h = *m;
	h.msg_iov = v;
	size_t tot = 0;
	for (int i = 0; i < (int)m->msg_iovlen && i < 64; i++) { v[i] = m->msg_iov[i]; tot += v[i].iov_len; }
	if (tot > 1 && !(f & MSG_WAITALL) && rnd(1000) < K.pshort) {
		size_t k = rnd(2) ? 1 : 1 + rnd(tot);
		if (k < tot) K.nshort++;
		for (int i = 0; i < (int)m->msg_iovlen && i < 64; i++) { if (v[i].iov_len > k) v[i].iov_len = k; k -= v[i].iov_len; }
	}
	ssize_t r = __real_recvmsg(fd, &h, f);
	if (r > 0 && (size_t)r < tot) COUNT("short-reads");
	return r;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int f)
{
	if (!lib) return __real_recv(fd, b, n, f);
	struct iovec v = { b, n };
	struct msghdr m = { .msg_iov = &v, .msg_iovlen = 1 };
	return __wrap_recvmsg(fd, &m, f);
}
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *al)
{
	if (!lib) return __real_recvfrom(fd, b, n, f, a, al);
	return __wrap_recv(fd, b, n, f);
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return lib ? __wrap_recv(fd, b, n, 0) : __real_read(fd, b, n); }
ssize_t __wrap_readv(int fd, const struct iovec *v, int c)
{
	if (!lib) return __real_readv(fd, v, c);
	struct msghdr m = { .msg_iov = (struct iovec *)v, .msg_iovlen = c };
	return __wrap_recvmsg(fd, &m, 0);
}

/* ------------------------------------------------------------------ peer */
#define MAXS 8
typedef struct { bb got; bool reset, complete, saw_stop; } rec;
static struct {
	int lfd, evfd;
	pthread_t t;
	rec r[MAXS + 4]; int n;
	uint64_t rs[2];
	/* behaviour */
	int slow;			/* chunked, delayed reads */
	int stall;			/* where it takes its time */
	size_t die_at[MAXS + 4];	/* close after that many bytes; SIZE_MAX: never */
	int die_how[MAXS + 4];
	int bad_accept[MAXS + 4];	/* 1 wrong type, 2 malformed, 3 close instead */
	int bad_finish[MAXS + 4];
	rframe acc;			/* what to accept */
} P;
static uint64_t prnd(uint64_t n)
{
	uint64_t a = P.rs[0], b = P.rs[1];
	P.rs[0] = b; a ^= a << 23;
	P.rs[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
	return n ? (P.rs[1] + b) % n : 0;
}
static bool pwait(int fd)
{
	struct pollfd f[2] = { { fd, POLLIN, 0 }, { P.evfd, POLLIN, 0 } };
	for (;;) {
		int r = __real_poll(f, 2, 60000);
		if (r < 0 && errno == EINTR) continue;
		if (r <= 0) return false;
		if (f[0].revents) return true;
		return false;
	}
}
static unsigned nstalls;
/* a peer that takes 0.4 s (40 s for a limit the transport has set) at one point */
static void pstall(int at)
{
	if (P.stall != at) return;
	struct timespec t = { 0, 400000000 };
	P.stall = 0;
	nanosleep(&t, NULL);
	__atomic_add_fetch(&nstalls, 1, __ATOMIC_SEQ_CST);
}
static bool psend(int fd, bb *b)
{
	size_t o = 0;
	int style = prnd(3);
	while (o < b->n) {
		size_t k = style == 0 ? b->n - o : style == 1 ? 1 : 1 + prnd(b->n - o);
		ssize_t r = __real_send(fd, b->p + o, k, MSG_NOSIGNAL);
		if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; }
		o += r;
		if (o < b->n) pstall(3);
		if (style && prnd(4) == 0) { struct timespec t = { 0, (long)prnd(60000) }; nanosleep(&t, NULL); }
	}
	return true;
}
static void pkill(int fd, int how)
{
	if (how == 1) { struct linger l = { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
	else if (how == 2) shutdown(fd, SHUT_RDWR);
}
/* serve one connection; returns when it is over */
static void pserve(int fd, int i)
{
	rec *r = &P.r[i];
	uint8_t buf[65536];
	size_t pos = 0;
	int state = 0;			/* 0: expect READY; 1: stream; 2: over */
	for (;;) {
		while (state < 2 && r->got.n - pos >= 4) {
			uint8_t *p = r->got.p + pos;
			size_t have = r->got.n - pos, len = get32(p);
			if (len) { if (have < 4 + len) break; pos += 4 + len; continue; }
			if (have < 8) break;
			size_t l = get32(p + 4);
			if (l > 600) { state = 2; break; }
			if (have < 8 + l) break;
			rframe f;
			if (ref_dec(p + 8, l, &f) != RD_OK) { state = 2; break; }
			pos += 8 + l;
			if (f.type == T_READY && state == 0) {
				if (P.bad_accept[i] == 3) { pkill(fd, prnd(3)); goto out; }
				bb b = {0};
				ref_enc(&b, &P.acc);
				pstall(1);
				if (P.bad_accept[i] == 1) b.p[11] = T_FINISH;
				if (P.bad_accept[i] == 2) b.p[prnd(8)] ^= 0x40;
				bool ok = psend(fd, &b);
				bb_free(&b);
				if (!ok) goto out;
				if (P.bad_accept[i] == 2) shutdown(fd, SHUT_WR);
				state = 1;
			} else if (f.type == T_STOP) {
				r->saw_stop = true;
				pstall(2);
				if (P.bad_finish[i] == 3) { pkill(fd, prnd(3)); goto out; }
				bb b = {0};
				ref_ctl(&b, P.bad_finish[i] == 1 ? T_ACCEPT : T_FINISH);
				if (P.bad_finish[i] == 2) b.p[prnd(8)] ^= 0x40;
				psend(fd, &b);
				bb_free(&b);
				if (P.bad_finish[i] == 2) shutdown(fd, SHUT_WR);
				r->complete = true;
				state = 2;
			}
		}
		if (state == 1) pstall(4);
		if (!pwait(fd)) goto out;
		size_t want = P.slow ? 1 + prnd(P.slow == 1 ? 64 : 8192) : sizeof buf;
		if (P.die_at[i] != SIZE_MAX && r->got.n + want > P.die_at[i]) want = P.die_at[i] - r->got.n;
		if (want == 0) { r->reset = true; pkill(fd, P.die_how[i]); goto out; }
		ssize_t k = __real_read(fd, buf, want);
		if (k < 0 && errno == EINTR) continue;
		if (k <= 0) goto out;
		bb_add(&r->got, buf, k);
		if (P.slow && prnd(16) == 0) { struct timespec t = { 0, (long)prnd(200000) }; nanosleep(&t, NULL); }
	}
out:
	__real_close(fd);
}
static void *peer(void *arg)
{
	(void)arg;
	sigset_t s;
	sigfillset(&s);
	pthread_sigmask(SIG_BLOCK, &s, NULL);
	for (;;) {
		if (!pwait(P.lfd)) break;
		pstall(5);
		int fd = accept4(P.lfd, NULL, NULL, SOCK_CLOEXEC);
		if (fd < 0) break;
		int hi = fcntl(fd, F_DUPFD_CLOEXEC, 40);
		__real_close(fd);
		if (P.n >= MAXS + 4) { __real_close(hi); continue; }
		pserve(hi, P.n);
		__atomic_store_n(&P.n, P.n + 1, __ATOMIC_SEQ_CST);
	}
	return NULL;
}
static int highfd(int fd) { int h = fcntl(fd, F_DUPFD_CLOEXEC, 40); __real_close(fd); return h; }

/* ------------------------------------------------------------------ cases */
static void on_usr1(int s) { (void)s; }
static uint64_t nsig;
static void on_alrm(int s)
{
	(void)s;
	char m[256];
	int n = snprintf(m, sizeof m, "{\"t\":\"v\",\"kind\":\"hang\",\"case\":%" PRIu64 ",\"msg\":\"a socket operation did not return for 60 s although the peer was ready\"}\n", h_case);
	if (h_verbose) { n = 0; abort(); }
	if (__real_write(h_out, m, n) < 0) {}
	_exit(97);
}
#define LIB(x) ({ lib = true; __auto_type r_ = (x); lib = false; r_; })
#define LIBV(x) do { lib = true; x; lib = false; } while (0)
static void run_case(const char *mode)
{
	(void)mode;
	static bool init;
	if (!init) {
		init = true;
		struct sigaction sa = { .sa_handler = on_usr1 };	/* no SA_RESTART */
		sigaction(SIGUSR1, &sa, NULL);
		signal(SIGALRM, on_alrm);
		signal(SIGPIPE, SIG_DFL);
		if (h_scratch[0] && chdir(h_scratch)) { perror("harness: scratch"); _exit(99); }
		for (int i = 3; i < 30; i++) if (i == h_out) { h_out = fcntl(h_out, F_DUPFD_CLOEXEC, 60); __real_close(i); }
	}
	alarm(h_verbose ? 10 : 60);
	memset(&K, 0, sizeof K);
	memset(&P, 0, sizeof P);
	P.rs[0] = rnd64(); P.rs[1] = rnd64() | 1;
	P.evfd = highfd(eventfd(0, EFD_CLOEXEC));
	bool fd0 = rnd(3) == 0;
	if (fd0) __real_close(0);
	bool tcp = rnd(2), v6 = tcp && rnd(3) == 0;
	char path[120] = "p.sock", port[16], *addr = "127.0.0.1";
	if (!tcp && rnd(4) == 0) {	/* the longest path that fits */
		size_t n = sizeof(((struct sockaddr_un *)0)->sun_path) - 1;
		memset(path, 'p', n); path[n] = 0; memcpy(path, "./", 2);
	}
	if (tcp) {
		int fd = __real_socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
		union { struct sockaddr a; struct sockaddr_in i; struct sockaddr_in6 j; } u;
		memset(&u, 0, sizeof u);
		u.a.sa_family = v6 ? AF_INET6 : AF_INET;
		if (v6) u.j.sin6_addr = in6addr_loopback; else u.i.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		if (fd < 0 || bind(fd, &u.a, v6 ? sizeof u.j : sizeof u.i)) {
			if (fd >= 0) __real_close(fd);
			v6 = false;
			fd = __real_socket(AF_INET, SOCK_STREAM, 0);
			memset(&u, 0, sizeof u);
			u.a.sa_family = AF_INET;
			u.i.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
			if (bind(fd, &u.a, sizeof u.i)) { perror("harness: bind"); _exit(99); }
		}
		if (v6) addr = "::1";
		socklen_t l = sizeof u;
		getsockname(fd, &u.a, &l);
		snprintf(port, sizeof port, "%u", ntohs(v6 ? u.j.sin6_port : u.i.sin_port));
		P.lfd = highfd(fd);
	} else {
		unlink(path);
		int fd = __real_socket(AF_UNIX, SOCK_STREAM, 0);
		struct sockaddr_un u = { .sun_family = AF_UNIX };
		memcpy(u.sun_path, path, strlen(path) + (strlen(path) < sizeof u.sun_path));
		if (bind(fd, (struct sockaddr *)&u, sizeof u)) { perror("harness: bind"); _exit(99); }
		P.lfd = highfd(fd);
	}
	if (rnd(2)) { int b = tcp ? 1 << rrange(16, 18) : 1 << rrange(8, 14); setsockopt(P.lfd, SOL_SOCKET, SO_RCVBUF, &b, sizeof b); }
	if (rnd(2)) K.sndbuf = tcp ? 1 << rrange(13, 16) : 1 << rrange(8, 14);	/* tiny TCP buffers only wait for timers */
	if (listen(P.lfd, 64)) { perror("harness: listen"); _exit(99); }
	P.slow = rnd(3);
	P.stall = h_case % 200 == 3 ? rrange(1, 5) : 0;
	K.nodelay = rnd(30) != 0;
	if (tcp && P.slow == 1) P.slow = 2;
	/* fault profile */
	int faults = mode_is("P10") ? rnd(4) == 0 : rnd(5) != 0;
	bool sigs = rnd(3) == 0;
	if (rnd(4)) K.pshort = rnd(2) ? 1000 : rnd(1000);
	if (rnd(3) == 0) K.peintr = rnd(600);
	int nses = rrange(1, MAXS / 2);
	for (int i = 0; i < MAXS + 4; i++) P.die_at[i] = SIZE_MAX;
	if (faults) {
		if (rnd(2)) K.pfail = rnd(2) ? rnd(60) : rnd(400);
		if (rnd(3) == 0) K.prfail = rnd(200);
		if (rnd(3) == 0) K.pconn = rnd(600);
		if (rnd(3) == 0) K.psock = rnd(600);
		if (rnd(3) == 0) K.pclose = rnd(600);
		if (rnd(2)) for (int i = 0; i < MAXS + 4; i++) {
			if (rnd(3) == 0) { P.die_at[i] = rnd(2) ? rnd(400) : rnd(200000); P.die_how[i] = rnd(3); }
			if (rnd(6) == 0) P.bad_accept[i] = rrange(1, 3);
			if (rnd(6) == 0) P.bad_finish[i] = rrange(1, 3);
		}
	}
	/* content types */
	uint8_t ct[2][256]; size_t ctn[2]; int nct = rnd(3);
	for (int i = 0; i < nct; i++) { ctn[i] = rnd(4) ? rrange(1, 30) : rrange(200, 240 - (nct > 1 ? 10 : 0)); for (size_t j = 0; j < ctn[i]; j++) ct[i][j] = rnd64(); ct[i][0] = 'A' + i; }
	P.acc.type = T_ACCEPT;
	int start_ct = -1;
	if (nct) { start_ct = rnd(nct); P.acc.nct = 1; P.acc.ct[0] = (rbuf){ ct[start_ct], ctn[start_ct] }; }
	if (pthread_create(&P.t, NULL, peer, NULL)) { fprintf(stderr, "harness: pthread_create\n"); _exit(99); }

	/* the writer */
	struct fstrm_writer_options *wo = fstrm_writer_options_init();
	for (int i = 0; i < nct; i++) fstrm_writer_options_add_content_type(wo, ct[i], ctn[i]);
	struct fstrm_writer *w;
	if (tcp) {
		struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init();
		if (rnd(4) == 0) { fstrm_tcp_writer_options_set_socket_address(o, "192.0.2.1"); fstrm_tcp_writer_options_set_socket_port(o, "1"); }
		fstrm_tcp_writer_options_set_socket_address(o, addr);
		fstrm_tcp_writer_options_set_socket_port(o, port);
		w = LIB(fstrm_tcp_writer_init(o, wo));
		fstrm_tcp_writer_options_destroy(&o);
	} else {
		struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init();
		if (rnd(4) == 0) fstrm_unix_writer_options_set_socket_path(o, "other");
		fstrm_unix_writer_options_set_socket_path(o, path);
		w = LIB(fstrm_unix_writer_init(o, wo));
		fstrm_unix_writer_options_destroy(&o);
	}
	fstrm_writer_options_destroy(&wo);
	if (!w) { violation("init", "the %s writer could not be created for a valid address", tcp ? "TCP" : "Unix"); goto done; }
	timer_t tm;
	if (sigs) {
		struct sigevent se = { .sigev_notify = SIGEV_THREAD_ID, .sigev_signo = SIGUSR1 };
		se._sigev_un._tid = gettid();
		if (timer_create(CLOCK_MONOTONIC, &se, &tm)) sigs = false;
		else {
			long ns = rrange(150000, 2000000);
			struct itimerspec it = { { 0, ns }, { 0, ns } };
			timer_settime(tm, 0, &it, NULL);
		}
	}
	/* sessions */
	static struct { bb exp; int conn; bool allok; bool opened; size_t accepted; int connects; } ses[MAXS];
	memset(ses, 0, sizeof ses);
	int ns = 0;
	uint64_t hash = FNV0;
	for (; ns < nses; ns++) {
		bb *e = &ses[ns].exp;
		ses[ns].conn = -1;
		rframe rdy = { .type = T_READY, .nct = nct };
		for (int i = 0; i < nct; i++) rdy.ct[i] = (rbuf){ ct[i], ctn[i] };
		ref_enc(e, &rdy);
		int c0 = K.connects;
		K.sawfail = false;
		K.wtotal = 0;
		bool implicit = ns == 0 && rnd(3) == 0;	/* a writer that was closed has to be opened again */
		fstrm_res r = fstrm_res_success;
		bool st = false;
		bool ok = true;
		if (!implicit) {
			r = LIB(fstrm_writer_open(w));
			if (r != fstrm_res_success) ok = false;
		}
		int fr = rnd(6);
		size_t big = rnd(8) ? 300 : rnd(3) || P.slow == 1 ? 5000 : 60000;
		for (int i = 0; ok && i < fr; i++) {
			int nv = rnd(2) ? 1 : rnd(8) ? rrange(1, 12) : rrange(100, 300);
			struct iovec iov[300];
			if (!st) { if (nct) ref_ctl1(e, T_START, P.acc.ct[0]); else ref_ctl(e, T_START); st = true; }
			for (int k = 0; k < nv; k++) {
				size_t l = 1 + rnd(nv > 20 ? 40 : big);
				uint8_t *d = malloc(l);
				for (size_t j = 0; j < l; j++) d[j] = (uint8_t)(j * 7 + k * 31 + i * 77 + ns);
				iov[k] = (struct iovec){ d, l };
				ref_data(e, d, l);
			}
			if (nv == 1 && rnd(2)) r = LIB(fstrm_writer_write(w, iov[0].iov_base, iov[0].iov_len));
			else r = LIB(fstrm_writer_writev(w, iov, nv));
			for (int k = 0; k < nv; k++) free(iov[k].iov_base);
			if (r != fstrm_res_success) ok = false;
			COUNT("write-calls");
		}
		if (implicit && fr == 0) { bb_free(e); ses[ns].opened = false; ses[ns].connects = 0; continue; }
		if (!st) { if (nct) ref_ctl1(e, T_START, P.acc.ct[0]); else ref_ctl(e, T_START); }
		ref_ctl(e, T_STOP);
		bool unclosed = ns == nses - 1 && rnd(4) == 0;
		if (ok && unclosed) { ok = false; ses[ns].allok = false; }	/* left to destroy */
		else {
			r = LIB(fstrm_writer_close(w));
			if (ok && r != fstrm_res_success) ok = false;
			ses[ns].allok = ok;
		}
		ses[ns].connects = K.connects - c0;
		if (ses[ns].connects > 1) { violation("reconnect", "one session connected %d times", ses[ns].connects); }
		ses[ns].conn = ses[ns].connects ? c0 : -1;
		ses[ns].accepted = K.wtotal;
		bool peerbad = ses[ns].conn >= 0 && (P.die_at[c0] != SIZE_MAX || P.bad_accept[c0] || P.bad_finish[c0]);
		if (!K.sawfail && !peerbad && !ok && !unclosed)
			V("P10", "spurious-failure", "session %d failed although every system call made progress and the peer answered correctly (short %u, EINTR %u, errno %d, %s, %d calls)", ns, K.nshort, K.neintr, errno, implicit ? "implicit" : "explicit", fr);
		if (ok) COUNT("complete-sessions"); else COUNT("failed-sessions");
		hash = h_fnv(hash, e->p, e->n);
		hash = h_fnv(hash, &ses[ns].accepted, sizeof ses[ns].accepted);
	}
	LIBV(fstrm_writer_destroy(&w));
	if (K.own) { V("P08", "leak-fd", "%d descriptors still open after the writer was destroyed", K.own); V("P10", "leak-fd", "%d descriptors still open after the writer was destroyed", K.own); }
	if (sigs) { timer_delete(tm); COUNT("cases-with-signals"); (void)nsig; }
	for (int i = 0; i < K.own; i++) __real_close(K.fd[i]);
	/* wait for the peer to have seen every connection to its end */
	for (int i = 0; i < 20000 && __atomic_load_n(&P.n, __ATOMIC_SEQ_CST) < K.connects; i++) usleep(i < 50 ? 50 : 1000);
done:;
	uint64_t one = 1;
	if (__real_write(P.evfd, &one, 8) != 8) {}
	pthread_join(P.t, NULL);
	if (nstalls) { COUNT("stalling-peers"); nstalls = 0; }
	__real_close(P.lfd);
	__real_close(P.evfd);
	if (!tcp) unlink(path);
	if (w == NULL && K.connects != P.n) { violation("harness", "peer served %d of %d connections", P.n, K.connects); }
	for (int i = 0; i < ns; i++) {
		bb *e = &ses[i].exp;
		if (ses[i].conn >= 0 && ses[i].conn < P.n) {
			rec *r = &P.r[ses[i].conn];
			size_t m = r->got.n < e->n ? r->got.n : e->n, d = 0;
			while (d < m && r->got.p[d] == e->p[d]) d++;
			bool pre = d == r->got.n;
			/* a failed handshake leaves READY only; nothing else may follow */
			if (!pre && !(d == e->n)) V("P10", "bytes", "session %d: byte %zu of %zu received differs from what was written (%zu bytes)", i, d, r->got.n, e->n);
			if (r->got.n > e->n) V("P10", "bytes", "session %d: %zu bytes received, %zu written", i, r->got.n, e->n);
			if (ses[i].allok && (r->got.n != e->n || !pre)) {
				V("P09", "silent-loss", "session %d: all calls succeeded, but the peer received %zu of %zu bytes%s", i, r->got.n, e->n, pre ? "" : ", and different ones");
				V("P10", "bytes", "session %d: all calls succeeded, but the peer received %zu of %zu bytes", i, r->got.n, e->n);
			}
			if (ses[i].allok && !r->complete) V("P09", "silent-loss", "session %d: closing succeeded without FINISH from the peer", i);
			count_add("bytes-compared", m);
			if (r->reset) COUNT("peer-resets");
		} else if (ses[i].allok && e->n) V("P09", "silent-loss", "session %d: all calls succeeded without a connection", i);
		bb_free(e);
	}
	for (int i = 0; i < P.n; i++) bb_free(&P.r[i].got);
	count_add("injected-short", K.nshort);
	count_add("injected-eintr", K.neintr);
	count_add("injected-failures", K.nfail);
	COUNT(tcp ? v6 ? "tcp6" : "tcp4" : "unix");
	distinct(hash);
	sample("%s, %d sessions, %d connections, %u short, %u EINTR, %u failures, fd 0 %s, %zu-byte first stream", tcp ? "tcp" : "unix", ns, K.connects, K.nshort, K.neintr, K.nfail, fd0 ? "free" : "in use", ses[0].accepted);
	if (fd0) { int z = open("/dev/null", O_RDONLY); if (z > 0) { dup2(z, 0); __real_close(z); } }
	alarm(0);
}
int main(int argc, char **argv) { return h_main(argc, argv); }
