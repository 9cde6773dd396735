/* Shared harness runtime: deterministic case RNG, violation and coverage
 * reporting, per-case CPU watchdog.  Every case is a pure function of
 * (seed, mode, case number). */
#ifndef H_COMMON_H
#define H_COMMON_H
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

/* ---- RNG ---- */
static uint64_t h_rs[2];
static inline uint64_t h_mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static inline void h_srand(uint64_t s) { h_rs[0] = h_mix(s); h_rs[1] = h_mix(s ^ 0xabcdef12345ull) | 1; }
static inline uint64_t rnd64(void)
{
	uint64_t a = h_rs[0], b = h_rs[1];
	h_rs[0] = b;
	a ^= a << 23;
	h_rs[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
	return h_rs[1] + b;
}
static inline uint64_t rnd(uint64_t n) { return n ? rnd64() % n : 0; }
static inline uint64_t rrange(uint64_t a, uint64_t b) { return a + rnd(b - a + 1); }
static inline bool chance(unsigned num, unsigned den) { return rnd(den) < num; }

/* ---- hashing ---- */
static inline uint64_t h_fnv(uint64_t h, const void *p, size_t n)
{
	const uint8_t *b = p;
	while (n--) { h ^= *b++; h *= 0x100000001b3ull; }
	return h;
}
#define FNV0 0xcbf29ce484222325ull

/* ---- growable byte buffer ---- */
typedef struct { uint8_t *p; size_t n, cap; } bb;
static inline void bb_need(bb *b, size_t k)
{
	if (b->n + k > b->cap) {
		b->cap = (b->n + k) * 2 + 64;
		b->p = realloc(b->p, b->cap);
		if (!b->p) { fprintf(stderr, "harness: out of memory\n"); _exit(99); }
	}
}
static inline void bb_add(bb *b, const void *d, size_t n) { if (n) { bb_need(b, n); memcpy(b->p + b->n, d, n); b->n += n; } }
static inline void bb_u8(bb *b, uint8_t v) { bb_add(b, &v, 1); }
static inline void bb_be32(bb *b, uint32_t v)
{
	uint8_t t[4] = { v >> 24, v >> 16, v >> 8, v };
	bb_add(b, t, 4);
}
static inline void bb_free(bb *b) { free(b->p); b->p = NULL; b->n = b->cap = 0; }
static inline void bb_rst(bb *b) { b->n = 0; }
static inline uint32_t get32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }

/* ---- reporting ---- */
static int h_out = -1;			/* results, one JSON object per line */
static uint64_t h_seed, h_case;
static char h_mode[32];
static int h_nviol;
static bool h_san_only;		/* only sanitizer reports count */
static bool h_verbose;
static char h_scratch[256];
static volatile uint64_t *h_progress;	/* shared mmap: current case */

static void h_write(const char *s, size_t n)
{
	while (n) {
		ssize_t k = write(h_out, s, n);
		if (k < 0) { if (errno == EINTR) continue; _exit(98); }
		s += k; n -= k;
	}
}
__attribute__((format(printf, 2, 3)))
static void violation(const char *kind, const char *fmt, ...)
{
	char msg[1500], line[4200], *o = line;
	va_list ap;
	if (h_san_only && strcmp(kind, "leak")) return;
	if (h_nviol++ > 20) return;
	va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
	o += sprintf(o, "{\"t\":\"v\",\"kind\":\"%s\",\"case\":%" PRIu64 ",\"msg\":\"", kind, h_case);
	for (char *m = msg; *m; m++) {
		unsigned char c = *m;
		if (c == '"' || c == '\\') { *o++ = '\\'; *o++ = c; }
		else if (c < 32 || c > 126) o += sprintf(o, "\\u%04x", c);
		else *o++ = c;
	}
	o += sprintf(o, "\"}\n");
	h_write(line, o - line);
	if (h_verbose) fprintf(stderr, "VIOLATION %s: %s\n", kind, msg);
}

#define H_MAXCNT 96
static struct { const char *name; uint64_t v; } h_cnt[H_MAXCNT];
static int h_ncnt;
static void count_add(const char *name, uint64_t d)
{
	for (int i = 0; i < h_ncnt; i++)
		if (h_cnt[i].name == name || !strcmp(h_cnt[i].name, name)) { h_cnt[i].v += d; return; }
	if (h_ncnt < H_MAXCNT) { h_cnt[h_ncnt].name = name; h_cnt[h_ncnt++].v = d; }
}
#define COUNT(n) count_add((n), 1)

static uint64_t *h_dist; static size_t h_ndist, h_cdist;
/* record the hash of a non-trivial case; Python counts distinct ones */
static void distinct(uint64_t h)
{
	if (h_ndist == h_cdist) {
		h_cdist = h_cdist ? h_cdist * 2 : 1024;
		h_dist = realloc(h_dist, h_cdist * sizeof *h_dist);
	}
	h_dist[h_ndist++] = h;
}
static int h_nsample;
__attribute__((format(printf, 1, 2)))
static void sample(const char *fmt, ...)
{
	char msg[700], line[2400], *o = line;
	va_list ap;
	if (h_nsample >= 3) return;
	h_nsample++;
	va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
	o += sprintf(o, "{\"t\":\"s\",\"case\":%" PRIu64 ",\"msg\":\"", h_case);
	for (char *m = msg; *m; m++) {
		unsigned char c = *m;
		if (c == '"' || c == '\\') { *o++ = '\\'; *o++ = c; }
		else if (c < 32 || c > 126) o += sprintf(o, "\\u%04x", c);
		else *o++ = c;
	}
	o += sprintf(o, "\"}\n");
	h_write(line, o - line);
}

static void h_cpu_watchdog(int sig)
{
	char b[256];
	(void)sig;
	int n = snprintf(b, sizeof b, "{\"t\":\"v\",\"kind\":\"hang\",\"case\":%" PRIu64
		",\"msg\":\"case consumed its CPU budget without finishing\"}\n", h_case);
	if (write(h_out, b, n) < 0) {}
	_exit(97);
}
static void h_arm(int secs)
{
	struct itimerval it = { .it_value = { .tv_sec = secs } };
	setitimer(ITIMER_PROF, &it, NULL);
}

static void run_case(const char *mode);
static bool h_leak_mode(const char *mode);
static int h_cpu_secs = 30;
static bool h_leak = true;		/* leaks count as violations */
#ifdef H_LEAKCHECK
int __lsan_do_recoverable_leak_check(void);
#endif

static void h_flush(void)
{
	char line[256];
	for (int i = 0; i < h_ncnt; i++) {
		int n = snprintf(line, sizeof line, "{\"t\":\"c\",\"name\":\"%s\",\"v\":%" PRIu64 "}\n", h_cnt[i].name, h_cnt[i].v);
		h_write(line, n);
	}
	for (size_t i = 0; i < h_ndist; i++) {
		int n = snprintf(line, sizeof line, "h%" PRIx64 "\n", h_dist[i]);
		h_write(line, n);
	}
	h_write("{\"t\":\"end\"}\n", 12);
	h_progress[0] = 0;
	free(h_dist);
	h_dist = NULL; h_ndist = h_cdist = 0; h_ncnt = 0;
}

static int h_main(int argc, char **argv)
{
	uint64_t from = 0, to = 1;
	const char *out = NULL, *prog = NULL;
	for (int i = 1; i + 1 < argc; i += 2) {
		if (!strcmp(argv[i], "--seed")) h_seed = strtoull(argv[i + 1], 0, 10);
		else if (!strcmp(argv[i], "--from")) from = strtoull(argv[i + 1], 0, 10);
		else if (!strcmp(argv[i], "--to")) to = strtoull(argv[i + 1], 0, 10);
		else if (!strcmp(argv[i], "--mode")) snprintf(h_mode, sizeof h_mode, "%s", argv[i + 1]);
		else if (!strcmp(argv[i], "--out")) out = argv[i + 1];
		else if (!strcmp(argv[i], "--progress")) prog = argv[i + 1];
		else if (!strcmp(argv[i], "--scratch")) snprintf(h_scratch, sizeof h_scratch, "%s", argv[i + 1]);
		else if (!strcmp(argv[i], "--verbose")) h_verbose = atoi(argv[i + 1]);
		else { fprintf(stderr, "harness: bad argument %s\n", argv[i]); return 99; }
	}
	h_out = out ? open(out, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600) : dup(1);
	if (h_out < 0) { perror("harness: out"); return 99; }
	static uint64_t dummy;
	h_progress = &dummy;
	if (prog) {
		int fd = open(prog, O_RDWR | O_CREAT | O_CLOEXEC, 0600);
		if (fd < 0 || ftruncate(fd, 4096) < 0) { perror("harness: progress"); return 99; }
		h_progress = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (h_progress == MAP_FAILED) return 99;
		close(fd);
	}
	h_san_only = !strcmp(h_mode, "P18");
	h_leak = h_leak_mode(h_mode);
	signal(SIGPROF, h_cpu_watchdog);
	for (uint64_t k = from; k < to; k++) {
		h_case = k;
		h_progress[0] = k + 1;
		h_srand(h_mix(h_seed * 1000003 + k) ^ h_fnv(FNV0, h_mode, strlen(h_mode)));
		h_arm(h_cpu_secs);
		run_case(h_mode);
		if (h_nviol > 20) break;
#ifdef H_LEAKCHECK
		if (h_leak && ((k - from) % 64 == 63 || k + 1 == to) && __lsan_do_recoverable_leak_check()) {
			violation("leak", "LeakSanitizer found leaked memory in cases %" PRIu64 "..%" PRIu64,
				  k - (k - from) % 64, k);
			break;
		}
#endif
	}
	h_arm(0);
	h_flush();
	if (!h_leak) _exit(0);
	return 0;
}
#endif
