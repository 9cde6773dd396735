/* helpers for I/O thread demonstrations */
#include "demo.h"
static unsigned freed;
__attribute__((unused)) static void count_free(void *p, void *x) { (void) x; free(p); __sync_fetch_and_add(&freed, 1); }
__attribute__((unused)) static char *dup_n(const char *s, size_t n) { char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__attribute__((unused)) static fstrm_res sub(struct fstrm_iothr *io, struct fstrm_iothr_queue *q, const char *s, size_t n)
{
	char *p = dup_n(s, n);
	fstrm_res r = fstrm_iothr_submit(io, q, p, n, count_free, NULL);
	if (r != fstrm_res_success) free(p);
	return r;
}
