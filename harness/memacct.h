/* Accounting of what the code under test holds: the checks rename the
 * allocation functions in its object files to these (objcopy --redefine-sym). */
#ifndef H_MEMACCT_H
#define H_MEMACCT_H
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static struct { void *p; size_t n; } *mw_t;
static size_t mw_cap, mw_used;
static size_t mw_live, mw_peak, mw_calls;
static size_t mw_slot(const void *p) { uint64_t h = (uintptr_t)p >> 4; h *= 0x9e3779b97f4a7c15ull; return (size_t)(h >> 20) & (mw_cap - 1); }
static void mw_put(void *p, size_t n)
{
	size_t i = mw_slot(p);
	while (mw_t[i].p) i = (i + 1) & (mw_cap - 1);
	mw_t[i].p = p; mw_t[i].n = n;
}
static void mw_add(void *p, size_t n)
{
	if (!p) return;
	if (2 * (mw_used + 1) > mw_cap) {
		size_t oc = mw_cap;
		void *o = mw_t;
		mw_cap = oc ? 2 * oc : 4096;
		mw_t = calloc(mw_cap, sizeof *mw_t);
		if (!mw_t) { fprintf(stderr, "harness: out of memory\n"); _exit(99); }
		for (size_t i = 0; i < oc; i++) if (((__typeof__(mw_t))o)[i].p) mw_put(((__typeof__(mw_t))o)[i].p, ((__typeof__(mw_t))o)[i].n);
		free(o);
	}
	mw_put(p, n);
	mw_used++; mw_calls++;
	mw_live += n;
	if (mw_live > mw_peak) mw_peak = mw_live;
}
/* -> false: not one of ours */
static bool mw_del(void *p)
{
	if (!p || !mw_cap) return false;
	size_t i = mw_slot(p), m = mw_cap - 1;
	while (mw_t[i].p != p) { if (!mw_t[i].p) return false; i = (i + 1) & m; }
	mw_live -= mw_t[i].n;
	mw_used--;
	for (size_t j = i;;) {
		mw_t[i].p = NULL;
		size_t k;
		do {
			j = (j + 1) & m;
			if (!mw_t[j].p) return true;
			k = mw_slot(mw_t[j].p);
		} while (i <= j ? (i < k && k <= j) : (i < k || k <= j));
		mw_t[i] = mw_t[j];
		i = j;
	}
}
void *mw_malloc(size_t n) { void *p = malloc(n); mw_add(p, n); return p; }
void *mw_calloc(size_t a, size_t b) { void *p = calloc(a, b); mw_add(p, a * b); return p; }
void mw_free(void *p) { mw_del(p); free(p); }
void *mw_realloc(void *o, size_t n)
{
	if (!o) return mw_malloc(n);
	/* both blocks exist while the contents move */
	size_t old = mw_live;
	void *p = realloc(o, n);
	if (!p && n) return p;
	bool ours = mw_del(o);
	if (p) mw_add(p, n);
	if (ours && old + n > mw_peak) mw_peak = old + n;
	return p;
}
void *mw_reallocarray(void *o, size_t a, size_t b) { return mw_realloc(o, a * b); }
char *mw_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = mw_malloc(n); if (p) memcpy(p, s, n); return p; }
char *mw_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = mw_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int mw_posix_memalign(void **r, size_t a, size_t n) { int x = posix_memalign(r, a, n); if (!x) mw_add(*r, n); return x; }
void *mw_aligned_alloc(size_t a, size_t n) { void *p = aligned_alloc(a, n); mw_add(p, n); return p; }
int mw_vasprintf(char **r, const char *f, va_list ap) { int x = vasprintf(r, f, ap); if (x >= 0) mw_add(*r, x + 1); return x; }
int mw_asprintf(char **r, const char *f, ...) { va_list ap; va_start(ap, f); int x = mw_vasprintf(r, f, ap); va_end(ap); return x; }
#endif
