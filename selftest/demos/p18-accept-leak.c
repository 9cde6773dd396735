// flags: -O1 -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free
#include "demo.h"
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t); void __real_free(void *);
static long live;
void *__wrap_malloc(size_t n) { live++; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { live++; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (!p) live++; return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
static bb rx;
int main(void)
{
	for (int k = 0; k < 4; k++) {
		mem m = {0}; long before = live;
		rx.n = 0;
		if (k == 1) ctl(&rx, C_ACCEPT, T("other", NULL, NULL));
		if (k == 2) ctl(&rx, C_FINISH, NULL);
		if (k == 3) ctl(&rx, C_ACCEPT, T("t", NULL, NULL));
		m.rx = rx.p; m.nrx = rx.n;
		struct fstrm_writer *w = mem_writer(&m, true, T("t", NULL, NULL));
		CHECK((fstrm_writer_open(w) == fstrm_res_success) == (k == 3));
		fstrm_writer_destroy(&w);
		free(m.tx);
		CHECK(live == before, "%ld blocks leaked after handshake %d", live - before, k);
	}
	return 0;
}
