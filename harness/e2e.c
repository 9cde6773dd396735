/* A program that submits payloads through the library's I/O thread to a real
 * server.  Everything about a payload follows from (process, producer,
 * sequence number), so that the driver (lib/e2escen.py) can recompute it.
 * Real threads; the library's clocks run SPEED times faster.
 * argv: key=value.  stdin: end of file tells the producers to stop.
 * Exit status 0: all went well; 4: an own check failed. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <fstrm.h>

#define SPEED 200
int __real_clock_gettime(clockid_t, struct timespec *);
static uint64_t t0;
static uint64_t rnow(void) { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
static uint64_t vnow(void) { return (uint64_t)100000 * 1000000000 + (rnow() - t0) * SPEED; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	uint64_t v = vnow();
	(void)c;
	t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
	return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
	uint64_t d = t->tv_sec * 1000000000ull + t->tv_nsec, v = vnow();
	uint64_t r = rnow() + (d > v ? (d - v) / SPEED : 0);
	struct timespec a = { r / 1000000000, r % 1000000000 };
	return pthread_cond_clockwait(c, m, CLOCK_MONOTONIC, &a);
}

static int g_argc; static char **g_argv;
static const char *arg(const char *k, const char *def)
{
	size_t n = strlen(k);
	for (int i = 1; i < g_argc; i++) if (!strncmp(g_argv[i], k, n) && g_argv[i][n] == '=') return g_argv[i] + n + 1;
	return def;
}
static unsigned argn(const char *k, unsigned def) { const char *s = arg(k, NULL); return s ? (unsigned)strtoul(s, NULL, 10) : def; }
static void die(const char *f, ...)
{
	va_list ap;
	va_start(ap, f); fputs("E2E: ", stderr); vfprintf(stderr, f, ap); fputc('\n', stderr); va_end(ap);
	_exit(4);
}

static uint8_t tab[131072];
static unsigned proc, nprod, nq, count, pace, retry, maxlen, big, small, salt, freemode;
static volatile bool stop;
static volatile uint64_t *page;		/* accepted so far, per producer */
static struct fstrm_iothr *io;
static struct fstrm_iothr_queue **qs;
static uint64_t ncb, ncbsum;		/* callbacks, atomically */

static size_t make(unsigned prod, uint32_t seq, uint8_t **out)
{
	uint32_t h = seq * 2654435761u + prod * 40503u + proc * 97u + salt;
	h ^= h >> 15; h *= 2246822519u; h ^= h >> 13;
	uint32_t k = h >> 28, n = k < 10 ? (h >> 8) % small : k < 15 ? (h >> 8) % (big < 1000 ? big : 1000) : (h >> 8) % big;
	size_t len = 16 + n;
	if (len > maxlen) len = maxlen;
	uint8_t *p = malloc(len + 1);
	char head[32];
	snprintf(head, sizeof head, "P%02u.%02u.%08u|", proc, prod, seq);
	memcpy(p, head, 16);
	memcpy(p + 16, tab + ((h >> 5) & 65535), len - 16);
	*out = p;
	return len;
}

typedef struct { unsigned prod; uint32_t *acc; uint32_t nacc, cap; uint64_t bytes; unsigned rs; } producer;
static unsigned rn(producer *p) { p->rs = p->rs * 1103515245u + 12345u; return p->rs >> 16 & 0x7fff; }
static void freecb(void *buf, void *data)
{
	__atomic_add_fetch(&ncb, 1, __ATOMIC_SEQ_CST);
	__atomic_add_fetch(&ncbsum, (uint64_t)(uintptr_t)data, __ATOMIC_SEQ_CST);
	free(buf);
}
static void *produce(void *v)
{
	producer *p = v;
	struct fstrm_iothr_queue *q = qs[p->prod % nq];
	for (uint32_t seq = 0; seq < count && !stop; seq++) {
		uint8_t *b;
		size_t n = make(p->prod, seq, &b);
		for (;;) {
			fstrm_res r = freemode ? fstrm_iothr_submit(io, q, b, n, freecb, (void *)(uintptr_t)(seq + 1)) : fstrm_iothr_submit(io, q, b, n, fstrm_free_wrapper, NULL);
			if (r == fstrm_res_success) {
				if (p->nacc == p->cap) p->acc = realloc(p->acc, (p->cap = p->cap * 2 + 64) * sizeof *p->acc);
				p->acc[p->nacc++] = seq;
				p->bytes += seq + 1;
				page[p->prod] = p->nacc;
				break;
			}
			if (r != fstrm_res_again) die("submission of %zu bytes returned %d", n, r);
			if (!retry || stop) free(b);
			if (stop || (!retry && count < 1000000)) break;
			struct timespec t = { 0, 50000 + rn(p) };
			nanosleep(&t, NULL);	/* (a program without end must not run through its numbers meanwhile) */
			if (!retry) break;
		}
		if (pace && rn(p) % pace == 0) { struct timespec t = { 0, 1000 * (long)(rn(p) % 2000) }; nanosleep(&t, NULL); }
	}
	return NULL;
}
static void *stopper(void *v)
{
	char c;
	(void)v;
	while (read(0, &c, 1) < 0 && errno == EINTR) { }
	stop = true;
	return NULL;
}

int main(int argc, char **argv)
{
	g_argc = argc; g_argv = argv;
	t0 = rnow();
	uint32_t x = 12345;
	for (int i = 0; i < 65536; i++) { x = x * 1664525u + 1013904223u; tab[i] = tab[i + 65536] = x >> 24; }
	proc = argn("proc", 0); nprod = argn("producers", 1); count = argn("count", 100); pace = argn("pace", 0);
	retry = argn("retry", 1); maxlen = argn("maxlen", 65536); big = argn("big", 2000); small = argn("small", 64); salt = argn("salt", 0); freemode = argn("free", 1);
	nq = argn("queues", 1);
	int fd = open(arg("page", "/dev/zero"), O_RDWR);
	page = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (page == MAP_FAILED) die("mmap");
	close(fd);

	struct fstrm_writer_options *wo = fstrm_writer_options_init();
	const char *ct = arg("ct", NULL);
	if (ct && fstrm_writer_options_add_content_type(wo, ct, strlen(ct)) != fstrm_res_success) die("content type");
	struct fstrm_writer *w;
	if (!strcmp(arg("net", "unix"), "file")) {
		struct fstrm_file_options *fo = fstrm_file_options_init();
		fstrm_file_options_set_file_path(fo, arg("addr", ""));
		w = fstrm_file_writer_init(fo, wo);
		fstrm_file_options_destroy(&fo);
	} else if (!strcmp(arg("net", "unix"), "unix")) {
		struct fstrm_unix_writer_options *uo = fstrm_unix_writer_options_init();
		fstrm_unix_writer_options_set_socket_path(uo, arg("addr", ""));
		w = fstrm_unix_writer_init(uo, wo);
		fstrm_unix_writer_options_destroy(&uo);
	} else {
		struct fstrm_tcp_writer_options *to = fstrm_tcp_writer_options_init();
		fstrm_tcp_writer_options_set_socket_address(to, arg("addr", ""));
		fstrm_tcp_writer_options_set_socket_port(to, arg("port", ""));
		w = fstrm_tcp_writer_init(to, wo);
		fstrm_tcp_writer_options_destroy(&to);
	}
	fstrm_writer_options_destroy(&wo);
	if (!w) die("no writer");
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
#define SET(n) do { const char *s = arg(#n, NULL); if (s && fstrm_iothr_options_set_##n(o, (unsigned)strtoul(s, NULL, 10)) != fstrm_res_success) die("option " #n); } while (0)
	SET(buffer_hint); SET(flush_timeout); SET(input_queue_size); SET(output_queue_size); SET(queue_notify_threshold); SET(reopen_interval);
	if (fstrm_iothr_options_set_num_input_queues(o, nq) != fstrm_res_success) die("queues");
	if (fstrm_iothr_options_set_queue_model(o, argn("mpsc", 0) ? FSTRM_IOTHR_QUEUE_MODEL_MPSC : FSTRM_IOTHR_QUEUE_MODEL_SPSC) != fstrm_res_success) die("model");
	io = fstrm_iothr_init(o, &w);
	if (!io) die("no I/O thread");
	fstrm_iothr_options_destroy(&o);
	qs = calloc(nq, sizeof *qs);
	for (unsigned i = 0; i < nq; i++) if (!(qs[i] = argn("byindex", 0) ? fstrm_iothr_get_input_queue_idx(io, i) : fstrm_iothr_get_input_queue(io))) die("no queue %u", i);

	pthread_t st, th[64];
	producer *pr = calloc(nprod, sizeof *pr);
	bool timed = argn("untilstop", 0);
	if (timed) pthread_create(&st, NULL, stopper, NULL);
	for (unsigned i = 0; i < nprod; i++) { pr[i].prod = i; pr[i].rs = salt + i * 7919; pthread_create(&th[i], NULL, produce, &pr[i]); }
	uint64_t want = 0, sum = 0;
	for (unsigned i = 0; i < nprod; i++) { pthread_join(th[i], NULL); want += pr[i].nacc; sum += pr[i].bytes; }
	if (timed) pthread_join(st, NULL);
	fstrm_iothr_destroy(&io);
	if (io) die("pointer not cleared");
	if (freemode && (ncb != want || ncbsum != sum)) die("%llu callbacks (sum %llu) for %llu accepted payloads (sum %llu)", (unsigned long long)ncb, (unsigned long long)ncbsum, (unsigned long long)want, (unsigned long long)sum);
	free(qs);
	const char *log = arg("log", NULL);
	if (log) {
		FILE *f = fopen(log, "wb");
		if (!f) die("log");
		for (unsigned i = 0; i < nprod; i++) {
			fwrite(&pr[i].nacc, 4, 1, f);
			fwrite(pr[i].acc, 4, pr[i].nacc, f);
		}
		if (fclose(f)) die("log");
	}
	for (unsigned i = 0; i < nprod; i++) free(pr[i].acc);
	free(pr);
	return 0;
}
