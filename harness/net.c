/* P29: the built-in file, Unix and TCP transports reach exactly the place they
 * were configured with.  socket() and connect() are wrapped: the address is
 * recorded and compared, the connection is made to a prepared socketpair.
 * Files are real, in the scratch directory. */
#define _GNU_SOURCE
#include "common.h"
#include "ref.h"
#include <fstrm.h>
#include <arpa/inet.h>
#include <dirent.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>

static bool h_leak_mode(const char *m) { (void)m; return true; }

int __real_socket(int, int, int);
int __real_connect(int, const struct sockaddr *, socklen_t);

typedef struct { int kind; char path[140]; size_t plen; uint8_t ip[16]; uint16_t port; } place;	/* kind 0 unix, 4, 6 */

static struct {
	bool on;
	int nsock, nconn, refuse;	/* attempts to refuse */
	const place *want;
	int peer;			/* our end of the connection */
	int cloexec;
} N;

int __wrap_socket(int d, int t, int p)
{
	if (!N.on) return __real_socket(d, t, p);
	N.nsock++;
	int dom = N.want->kind == 0 ? AF_UNIX : N.want->kind == 4 ? AF_INET : AF_INET6;
	if (d != dom) violation("domain", "a socket of domain %d is created, %d is meant", d, dom);
	if ((t & ~(SOCK_CLOEXEC | SOCK_NONBLOCK)) != SOCK_STREAM) violation("socket-type", "a socket of type %d is created", t);
	return __real_socket(AF_UNIX, SOCK_STREAM | (t & (SOCK_CLOEXEC | SOCK_NONBLOCK)), 0);
}
static void check_addr(const struct sockaddr *a, socklen_t n)
{
	const place *w = N.want;
	if (w->kind == 0) {
		const struct sockaddr_un *u = (const void *)a;
		size_t off = offsetof(struct sockaddr_un, sun_path);
		if (n < off || a->sa_family != AF_UNIX) { violation("address", "not a Unix address (family %d, %u bytes)", a->sa_family, n); return; }
		size_t l = strnlen(u->sun_path, n - off);
		if (l != w->plen || memcmp(u->sun_path, w->path, l)) violation("address", "connects to a path of %zu bytes '%.*s', configured: %zu bytes '%s'", l, (int)l, u->sun_path, w->plen, w->path);
	} else if (w->kind == 4) {
		const struct sockaddr_in *u = (const void *)a;
		if (n < sizeof *u || a->sa_family != AF_INET) { violation("address", "not an IPv4 address (family %d, %u bytes)", a->sa_family, n); return; }
		if (memcmp(&u->sin_addr, w->ip, 4)) violation("address", "connects to another IPv4 address (%08x)", ntohl(u->sin_addr.s_addr));
		if (ntohs(u->sin_port) != w->port) violation("port", "connects to port %u, configured: %u", ntohs(u->sin_port), w->port);
	} else {
		const struct sockaddr_in6 *u = (const void *)a;
		if (n < sizeof *u || a->sa_family != AF_INET6) { violation("address", "not an IPv6 address (family %d, %u bytes)", a->sa_family, n); return; }
		if (memcmp(&u->sin6_addr, w->ip, 16)) violation("address", "connects to another IPv6 address");
		if (u->sin6_scope_id || u->sin6_flowinfo) violation("address", "IPv6 scope %u flow %u from nowhere", u->sin6_scope_id, u->sin6_flowinfo);
		if (ntohs(u->sin6_port) != w->port) violation("port", "connects to port %u, configured: %u", ntohs(u->sin6_port), w->port);
	}
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n)
{
	if (!N.on) return __real_connect(fd, a, n);
	N.nconn++;
	check_addr(a, n);
	if (N.refuse > 0) { N.refuse--; errno = ECONNREFUSED; return -1; }
	int sp[2], fl = fcntl(fd, F_GETFD);
	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sp)) { perror("harness: socketpair"); _exit(99); }
	dup3(sp[0], fd, fl >= 0 && (fl & FD_CLOEXEC) ? O_CLOEXEC : 0);
	close(sp[0]);
	if (N.peer >= 0) close(N.peer);
	N.peer = sp[1];
	N.cloexec = fd;
	bb b = { 0 };
	ref_ctl(&b, T_ACCEPT);
	ref_ctl(&b, T_FINISH);
	if (write(sp[1], b.p, b.n) != (ssize_t)b.n) _exit(99);
	bb_free(&b);
	return 0;
}

static int nfds(void)
{
	int n = 0;
	for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) n++;
	return n;
}
static void rname(char *o, size_t l)
{
	for (size_t i = 0; i < l; i++) {
		int c;
		do c = chance(3, 4) ? "abcdefghijklmnopqrstuvwxyz0123456789._- %:"[rnd(42)] : (int)rrange(1, 255); while (c == '/');
		o[i] = c;
	}
	o[l] = 0;
	if (!strcmp(o, ".") || !strcmp(o, "..") || !strcmp(o, "-")) o[0] = 'x';
}
/* independent printers of addresses */
static void p4(char *o, const uint8_t *a) { sprintf(o, "%u.%u.%u.%u", a[0], a[1], a[2], a[3]); }
static void p6(char *o, const uint8_t *a)
{
	int style = rnd(4), zs = -1, zl = 0;
	uint16_t g[8];
	for (int i = 0; i < 8; i++) g[i] = a[2 * i] << 8 | a[2 * i + 1];
	if (style) for (int i = 0; i < 8; i++) { int k = 0; while (i + k < 8 && !g[i + k]) k++; if (k > zl && (k > 1 || style == 2)) { zs = i; zl = k; } }
	bool v4 = style == 3 && !(zs >= 0 && zs + zl > 6);
	int end = v4 ? 6 : 8;
	*o = 0;
	for (int i = 0; i < end;) {
		if (i == zs) { strcat(o, "::"); i += zl; continue; }
		char t[8];
		sprintf(t, style == 0 && chance(1, 2) ? "%04x" : chance(1, 2) ? "%x" : "%X", g[i]);
		if (*o && o[strlen(o) - 1] != ':') strcat(o, ":");
		strcat(o, t);
		i++;
	}
	if (v4) { char t[20]; p4(t, a + 12); if (*o && o[strlen(o) - 1] != ':') strcat(o, ":"); strcat(o, t); }
}
static void gen_ip(uint8_t *ip, int n)
{
	for (int i = 0; i < n; i++) ip[i] = chance(1, 3) ? 0 : chance(1, 3) ? 255 : (int)rnd(256);
	if (n == 16) for (int i = 0; i < 8; i++) if (chance(1, 2)) ip[2 * i] = ip[2 * i + 1] = 0;
}
static uint16_t gen_port(void)
{
	static const uint16_t p[] = { 1, 9, 80, 255, 256, 257, 512, 1023, 1024, 4096, 32767, 32768, 65534, 65535 };
	return chance(1, 2) ? p[rnd(14)] : (uint16_t)rrange(1, 65535);
}
static const char *const bad4[] = { "", "256.1.1.1", "1.2.3.4.5", "1.2.3.4x", "localhost", "1.2.3.", ":::", "12345::", "1::2::3", " 1.2.3.4", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "g::1", "/tmp/sock", "1.2.3.4 ", "1.2.-3.4", "::1]", "[::1]" };
static const char *const badp[] = { "", "65536", "65537", "65616", "131152", "4294967296", "4294967376", "99999999999999999999999", "80x", "x80", "http", "80 ", "8 0", "80,81", "80-81", "0x", "-1", "-80", "80.0", "1e3" };

/* what a session writes; compared with what the peer receives */
/* more openings of one object than 8 bits count */
static int many_rounds(void)
{
	if (rnd(4000)) return rrange(1, 2);
	COUNT("hundreds-of-sessions");
	return rrange(257, 300);
}
static void session(struct fstrm_writer *w, const place *pl, const char *what, bool fresh, uint64_t *hash)
{
	int before = nfds();
	N.want = pl;
	N.on = true;
	N.nsock = N.nconn = 0;
	N.refuse = chance(1, 3) ? (int)rrange(1, 3) : 0;
	N.peer = -1;
	int ref = N.refuse;
	bb e = { 0 };
	rframe f = { .type = T_READY };
	ref_enc(&e, &f);
	ref_ctl(&e, T_START);
	for (int i = 0; i < ref; i++) {
		fstrm_res r = !fresh || chance(1, 2) ? fstrm_writer_open(w) : fstrm_writer_write(w, "x", 1);
		if (r == fstrm_res_success) { violation("open-refused", "%s: opening succeeds although the connection was refused", what); break; }
		N.on = false;
		if (nfds() != before) violation("fd-left", "%s: a failed open leaves %d descriptors", what, nfds() - before);
		N.on = true;
		COUNT("refused-connects");
	}
	int conn = N.nconn;
	if (ref && conn != ref) violation("connect-count", "%s: %d failed opens made %d connection attempts", what, ref, conn);
	if (fstrm_writer_open(w) != fstrm_res_success) violation("open-failed", "%s: opening fails although the peer accepts", what);
	else {
		if (N.nconn != conn + 1) violation("connect-count", "%s: one open made %d connection attempts", what, N.nconn - conn);
		if (!(fcntl(N.cloexec, F_GETFD) & FD_CLOEXEC)) violation("cloexec", "%s: the connection would be inherited by executed programs", what);
		uint8_t d[64];
		size_t n = rrange(1, sizeof d);
		for (size_t i = 0; i < n; i++) d[i] = rnd(256);
		bool broken = chance(1, 8);
		if (broken) {
			shutdown(N.peer, SHUT_RDWR);
			close(N.peer);
			N.peer = -1;
			if (fstrm_writer_write(w, d, n) == fstrm_res_success) violation("write-broken", "%s: writing to a closed connection succeeds", what);
			(void)fstrm_writer_close(w);
			COUNT("broken-connections");
		} else {
			if (fstrm_writer_write(w, d, n) != fstrm_res_success) violation("write-failed", "%s: writing fails", what);
			ref_data(&e, d, n);
			if (fstrm_writer_close(w) != fstrm_res_success) violation("close-failed", "%s: closing fails", what);
			ref_ctl(&e, T_STOP);
			uint8_t got[1024];
			size_t g = 0;
			ssize_t k;
			while (g < sizeof got && (k = recv(N.peer, got + g, sizeof got - g, MSG_DONTWAIT)) > 0) g += k;
			if (g != e.n || memcmp(got, e.p, g)) violation("bytes", "%s: the peer received %zu bytes, %zu were to be sent", what, g, e.n);
			COUNT("sessions");
		}
	}
	N.on = false;
	if (N.peer >= 0) { close(N.peer); N.peer = -1; }
	if (nfds() != before) violation("fd-left", "%s: %d descriptors left after closing", what, nfds() - before);
	*hash = h_fnv(*hash, pl->kind ? (const void *)pl->ip : pl->path, pl->kind ? 16 : pl->plen);
	*hash = h_fnv(*hash, &pl->port, 2) + ref;
	bb_free(&e);
}

static void case_unix(uint64_t *hash)
{
	enum { MAX = 3 };
	struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init();
	struct fstrm_writer *w[MAX] = { 0 };
	place pl[MAX];
	int n = rrange(1, MAX);
	int before = nfds();
	N.on = true; N.nsock = N.nconn = 0;
	N.want = &pl[0]; pl[0].kind = 0; pl[0].plen = 0; pl[0].path[0] = 0;
	if (chance(1, 6)) {
		struct fstrm_writer *z = fstrm_unix_writer_init(o, NULL);
		if (z) { violation("unset-accepted", "a Unix writer without a socket path is created"); fstrm_writer_destroy(&z); }
		COUNT("unset-options");
	}
	for (int i = 0; i < n; i++) {
		char tmp[400];
		size_t l = chance(1, 2) ? rrange(100, 107) : rrange(1, 107);
		if (chance(1, 4)) {	/* too long for a socket address; 108 itself is left open */
			size_t tl = chance(1, 2) ? 109 : rrange(109, 300);
			rname(tmp, tl);
			fstrm_unix_writer_options_set_socket_path(o, tmp);
			struct fstrm_writer *z = fstrm_unix_writer_init(o, NULL);
			if (z) { violation("long-accepted", "a Unix writer for a path of %zu bytes is created", tl); fstrm_writer_destroy(&z); }
			COUNT("too-long");
		}
		rname(tmp, l);
		if (chance(1, 2)) tmp[0] = '/';
		if (i && chance(1, 2)) {	/* a prefix of the previous path */
			l = rrange(1, pl[i - 1].plen);
			memcpy(tmp, pl[i - 1].path, l);
			tmp[l] = 0;
		}
		pl[i].kind = 0; pl[i].plen = l; pl[i].port = 0;
		memcpy(pl[i].path, tmp, l + 1);
		fstrm_unix_writer_options_set_socket_path(o, tmp);
		memset(tmp, 'Z', sizeof tmp);	/* the string was copied */
		w[i] = fstrm_unix_writer_init(o, NULL);
		if (!w[i]) violation("refused", "no Unix writer for a path of %zu bytes", l);
	}
	if (chance(1, 2)) { fstrm_unix_writer_options_set_socket_path(o, chance(1, 2) ? "/other" : NULL); COUNT("options-changed"); }
	if (chance(1, 2)) fstrm_unix_writer_options_destroy(&o);
	N.on = false;
	if (N.nsock || N.nconn || nfds() != before) violation("early-open", "creating a Unix writer opens something");
	int rounds = many_rounds();
	for (int k = 0; k < rounds; k++) for (int i = n; i-- > 0;) if (w[i]) session(w[i], &pl[i], "unix", k == 0, hash);
	for (int i = 0; i < n; i++) if (w[i]) fstrm_writer_destroy(&w[i]);
	if (o) fstrm_unix_writer_options_destroy(&o);
	COUNT("unix-cases");
	sample("unix: %d writers, path of %zu bytes '%s'", n, pl[0].plen, pl[0].path);
}
static void case_tcp(uint64_t *hash)
{
	enum { MAX = 3 };
	struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init();
	struct fstrm_writer *w[MAX] = { 0 };
	place pl[MAX];
	char a[80], p[40], a0[80] = "", p0[40] = "";
	int n = rrange(1, MAX), before = nfds();
	N.on = true; N.nsock = N.nconn = 0;
	pl[0].kind = 4; N.want = &pl[0];
	if (chance(1, 6)) {
		int which = rnd(3);
		if (which == 1) fstrm_tcp_writer_options_set_socket_address(o, "127.0.0.1");
		if (which == 2) fstrm_tcp_writer_options_set_socket_port(o, "80");
		struct fstrm_writer *z = fstrm_tcp_writer_init(o, NULL);
		if (z) { violation("unset-accepted", "a TCP writer without %s is created", which == 1 ? "a port" : which == 2 ? "an address" : "address and port"); fstrm_writer_destroy(&z); }
		COUNT("unset-options");
	}
	for (int i = 0; i < n; i++) {
		memset(pl[i].ip, 0, 16);
		pl[i].kind = chance(1, 2) ? 4 : 6;
		gen_ip(pl[i].ip, pl[i].kind == 4 ? 4 : 16);
		pl[i].port = gen_port();
		if (pl[i].kind == 4) p4(a, pl[i].ip); else p6(a, pl[i].ip);
		sprintf(p, "%u", pl[i].port);
		if (chance(1, 3)) {	/* an address or a port that is none */
			bool ba = chance(1, 2);
			fstrm_tcp_writer_options_set_socket_address(o, ba ? bad4[rnd(sizeof bad4 / sizeof *bad4)] : a);
			char big[32];
			const char *bp = badp[rnd(sizeof badp / sizeof *badp)];
			if (chance(1, 2)) { sprintf(big, "%" PRIu64, chance(1, 2) ? rrange(65536, 1 << 20) : rnd64() | 65536ull << rnd(40)); bp = big; }
			fstrm_tcp_writer_options_set_socket_port(o, ba ? p : bp);
			struct fstrm_writer *z = fstrm_tcp_writer_init(o, NULL);
			if (z) { violation("bad-accepted", "a TCP writer is created for %s %s", ba ? "no address" : "port", ba ? "" : bp); fstrm_writer_destroy(&z); }
			COUNT(ba ? "bad-addresses" : "bad-ports");
		}
		fstrm_tcp_writer_options_set_socket_address(o, a);
		fstrm_tcp_writer_options_set_socket_port(o, p);
		strcpy(a0, a); strcpy(p0, p);
		memset(a, '9', sizeof a - 1); memset(p, '9', 4);
		w[i] = fstrm_tcp_writer_init(o, NULL);
		if (!w[i]) violation("refused", "no TCP writer for address %s port %s", a0, p0);
	}
	if (chance(1, 2)) { fstrm_tcp_writer_options_set_socket_address(o, chance(1, 2) ? "9.9.9.9" : NULL); fstrm_tcp_writer_options_set_socket_port(o, chance(1, 2) ? "9" : NULL); COUNT("options-changed"); }
	if (chance(1, 2)) fstrm_tcp_writer_options_destroy(&o);
	N.on = false;
	if (N.nsock || N.nconn || nfds() != before) violation("early-open", "creating a TCP writer opens something");
	int rounds = many_rounds();
	for (int k = 0; k < rounds; k++) for (int i = n; i-- > 0;) if (w[i]) { session(w[i], &pl[i], "tcp", k == 0, hash); COUNT(pl[i].kind == 4 ? "ipv4" : "ipv6"); }
	for (int i = 0; i < n; i++) if (w[i]) fstrm_writer_destroy(&w[i]);
	if (o) fstrm_tcp_writer_options_destroy(&o);
	COUNT("tcp-cases");
	sample("tcp: %d writers, last address %s port %s", n, a0, p0);
}

static char dir[300];
static bool slurp(const char *path, bb *b)
{
	int fd = open(path, O_RDONLY | O_CLOEXEC);
	uint8_t t[4096];
	ssize_t k;
	if (fd < 0) return false;
	while ((k = read(fd, t, sizeof t)) > 0) bb_add(b, t, k);
	close(fd);
	return true;
}
static void spew(const char *path, const void *p, size_t n)
{
	int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
	if (fd < 0 || write(fd, p, n) != (ssize_t)n) { perror("harness: spew"); _exit(99); }
	close(fd);
}
static int dircount(void)
{
	DIR *d = opendir(dir);
	int n = 0;
	while (readdir(d)) n++;
	closedir(d);
	return n - 2;
}
static void gen_stream(bb *e, bb *data, int *nf)
{
	rbuf none = { NULL, 0 };
	(void)none;
	ref_ctl(e, T_START);
	*nf = rnd(6);
	for (int i = 0; i < *nf; i++) {
		uint8_t d[3000];
		size_t n = chance(1, 2) ? rrange(1, 40) : rrange(1, sizeof d);
		for (size_t j = 0; j < n; j++) d[j] = rnd(256);
		ref_data(e, d, n);
		bb_be32(data, n);
		bb_add(data, d, n);
	}
	ref_ctl(e, T_STOP);
}
static bool do_write(struct fstrm_writer *w, const bb *data, bool fresh)
{
	bool ok = fresh && chance(1, 2) ? true : fstrm_writer_open(w) == fstrm_res_success;
	if (!data->n) ok = ok && fstrm_writer_open(w) == fstrm_res_success;
	for (size_t p = 0; p < data->n;) { uint32_t n = get32(data->p + p); ok = fstrm_writer_write(w, data->p + p + 4, n) == fstrm_res_success && ok; p += 4 + n; }
	return fstrm_writer_close(w) == fstrm_res_success && ok;
}
static const char *do_read(struct fstrm_reader *r, const bb *data)
{
	size_t p = 0;
	const uint8_t *d;
	size_t n;
	fstrm_res x;
	while ((x = fstrm_reader_read(r, &d, &n)) == fstrm_res_success) {
		if (p >= data->n || get32(data->p + p) != n || memcmp(d, data->p + p + 4, n)) return "a frame differs";
		p += 4 + n;
	}
	if (x != fstrm_res_stop) return "reading fails";
	return p == data->n ? NULL : "frames are missing";
}
static void case_file(uint64_t *hash)
{
	struct fstrm_file_options *o = fstrm_file_options_init();
	char path[2][600], name[300];
	bb e[2] = { { 0 } }, data[2] = { { 0 } }, got = { 0 };
	int nf[2], before = nfds();
	struct fstrm_writer *w[2];
	struct fstrm_reader *r[2];
	snprintf(dir, sizeof dir, "%s/net.%d", h_scratch, getpid());
	if (mkdir(dir, 0700)) { perror("harness: mkdir"); _exit(99); }
	bool rel = chance(1, 2);	/* relative names, in the scratch directory */
	int cwd = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
	before++;
	if (rel && chdir(dir)) _exit(99);
	if (chance(1, 6)) {
		struct fstrm_writer *z = fstrm_file_writer_init(o, NULL);
		struct fstrm_reader *y = fstrm_file_reader_init(o, NULL);
		if (z || y) violation("unset-accepted", "a file %s without a path is created", z ? "writer" : "reader");
		if (z) fstrm_writer_destroy(&z);
		if (y) fstrm_reader_destroy(&y);
		COUNT("unset-options");
	}
	for (int i = 0; i < 2; i++) {
		size_t l = chance(1, 4) ? rrange(200, 255) : rrange(1, 40);
		do { rname(name, l); if (l > 1 && chance(1, 4)) name[0] = '-'; if (i && chance(1, 3)) { snprintf(path[1], sizeof path[1], "%s", path[0]); path[1][strlen(path[0]) - 1] ^= 1; } else snprintf(path[i], sizeof path[i], "%s/%s", dir, name); } while (!strcmp(path[i], path[!i]) || strrchr(path[i], '/') != path[i] + strlen(dir) || !strrchr(path[i], '/')[1] || !strcmp(path[i] + strlen(dir), "/-") || !strcmp(path[i] + strlen(dir), "/.") || !strcmp(path[i] + strlen(dir), "/.."));
		gen_stream(&e[i], &data[i], &nf[i]);
		if (chance(1, 2)) {	/* already there, and longer */
			uint8_t junk[20000];
			memset(junk, 0xEE, sizeof junk);
			spew(path[i], junk, rnd(sizeof junk));
			COUNT("files-replaced");
		}
		char tmp[600];
		strcpy(tmp, path[i] + (rel ? strlen(dir) + 1 : 0));
		if (rel && *tmp == '-') COUNT("dashed-names");
		fstrm_file_options_set_file_path(o, tmp);
		memset(tmp, 'Z', strlen(tmp));
		w[i] = fstrm_file_writer_init(o, NULL);
		r[i] = fstrm_file_reader_init(o, NULL);
		if (!w[i] || !r[i]) violation("refused", "no file writer or reader for a path of %zu bytes", strlen(path[i]));
	}
	if (chance(1, 2)) { snprintf(name, sizeof name, "%s/other", dir); fstrm_file_options_set_file_path(o, chance(1, 2) ? name : NULL); COUNT("options-changed"); }
	if (chance(1, 2)) fstrm_file_options_destroy(&o);
	int rounds = many_rounds();
	for (int k = 0; k < rounds; k++) {
		for (int i = 0; i < 2; i++) if (w[i]) {
			if (!do_write(w[i], &data[i], k == 0)) violation("write-failed", "writing a file fails");
			bb_rst(&got);
			if (!slurp(path[i], &got)) violation("elsewhere", "the configured file does not exist after writing");
			else if (got.n != e[i].n || memcmp(got.p, e[i].p, got.n)) violation("content", "the configured file has %zu bytes, the stream has %zu%s", got.n, e[i].n, got.n > e[i].n ? " (not truncated?)" : "");
		}
		for (int i = 0; i < 2 && k + 1 == rounds; i++) if (r[i]) {
			const char *m = do_read(r[i], &data[i]);
			if (m) violation("read", "reading the configured file: %s", m);
			fstrm_reader_destroy(&r[i]);
			bb_rst(&got);
			if (!slurp(path[i], &got) || got.n != e[i].n || memcmp(got.p, e[i].p, got.n)) violation("read-modifies", "reading changed the file");
			COUNT("files-read");
		}
	}
	if (dircount() != 2) violation("elsewhere", "%d files exist, two were written", dircount());
	for (int i = 0; i < 2; i++) { if (w[i]) fstrm_writer_destroy(&w[i]); if (r[i]) fstrm_reader_destroy(&r[i]); }
	if (!o) o = fstrm_file_options_init();
	/* places that cannot be opened */
	const char *bad = rnd(2) ? "nodir/x" : "";
	snprintf(name, sizeof name, "%s/%s", dir, bad);
	fstrm_file_options_set_file_path(o, name);
	const uint8_t *d; size_t n;
	struct fstrm_writer *z = fstrm_file_writer_init(o, NULL);
	if (z) { if (fstrm_writer_write(z, "x", 1) == fstrm_res_success) violation("open-bad", "writing to %s succeeds", *bad ? "a file in a missing directory" : "a directory"); fstrm_writer_destroy(&z); }
	snprintf(name, sizeof name, "%s/missing", dir);
	fstrm_file_options_set_file_path(o, name);
	struct fstrm_reader *y = fstrm_file_reader_init(o, NULL);
	if (y) { if (fstrm_reader_read(y, &d, &n) == fstrm_res_success) violation("open-bad", "reading a missing file succeeds"); fstrm_reader_destroy(&y); }
	if (dircount() != 2) violation("read-creates", "a failed open leaves a file behind");
	COUNT("unopenable");
	/* "-": in a child whose standard streams are files */
	if (chance(1, 8)) {
		int io = rnd(2);
		spew(path[0], e[0].p, io ? 0 : e[0].n);
		fflush(NULL);
		pid_t pid = fork();
		if (!pid) {
			int fd = open(path[0], (io ? O_WRONLY : O_RDONLY));
			dup2(fd, io);
			close(fd);
			int bad = 0;
			chdir(dir);
			fstrm_file_options_set_file_path(o, "-");
			if (io) {
				struct fstrm_writer *v = fstrm_file_writer_init(o, NULL);
				bad = !v || !do_write(v, &data[0], true);
			} else {
				struct fstrm_reader *v = fstrm_file_reader_init(o, NULL);
				bad = !v || do_read(v, &data[0]) != NULL;
			}
			_exit(bad);
		}
		int st;
		waitpid(pid, &st, 0);
		bb_rst(&got);
		slurp(path[0], &got);
		if (st) violation("dash", "%s \"-\" fails (status %d)", io ? "writing to" : "reading from", st);
		else if (got.n != e[0].n || memcmp(got.p, e[0].p, got.n)) violation("dash", "writing to \"-\" did not write the stream to standard output (%zu of %zu bytes)", got.n, e[0].n);
		if (dircount() != 2) violation("dash", "a file named \"-\" appears");
		COUNT(io ? "standard-output" : "standard-input");
	}
	fstrm_file_options_destroy(&o);
	if (nfds() != before) violation("fd-left", "file transports leave %d descriptors", nfds() - before);
	DIR *dd = opendir(dir);
	if (fchdir(cwd)) _exit(99);
	close(cwd);
	for (struct dirent *de; (de = readdir(dd));) if (strcmp(de->d_name, ".") && strcmp(de->d_name, "..")) unlinkat(dirfd(dd), de->d_name, 0);
	closedir(dd);
	rmdir(dir);
	for (int i = 0; i < 2; i++) { *hash = h_fnv(*hash, e[i].p, e[i].n); *hash = h_fnv(*hash, path[i], strlen(path[i])); bb_free(&e[i]); bb_free(&data[i]); }
	bb_free(&got);
	COUNT("file-cases");
}
static void run_case(const char *mode)
{
	(void)mode;
	signal(SIGPIPE, SIG_DFL);
	uint64_t hash = FNV0;
	switch (rnd(5)) {
	case 0: case 1: case_unix(&hash); break;
	case 2: case 3: case_tcp(&hash); break;
	default: case_file(&hash);
	}
	distinct(hash);
}
int main(int argc, char **argv) { return h_main(argc, argv); }
