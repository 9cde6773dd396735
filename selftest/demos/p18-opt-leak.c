// flags: -O1 -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free
#include "demo.h"
/* counts the blocks the library has allocated and not released */
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t); void __real_free(void *);
static long live;
void *__wrap_malloc(size_t n) { live++; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { live++; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (!p) live++; return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
int main(void)
{
	for (int n = 0; n < 40; n++) {
		mem m = {0}; char t[16]; long before = live;
		struct fstrm_writer_options *o = fstrm_writer_options_init();
		for (int i = 0; i < n; i++) { snprintf(t, sizeof t, "type%d", i); CHECK(fstrm_writer_options_add_content_type(o, t, strlen(t)) == fstrm_res_success); }
		struct fstrm_rdwr *r = mem_rdwr(&m, false, true);
		struct fstrm_writer *w = fstrm_writer_init(o, &r);
		fstrm_writer_options_destroy(&o);
		CHECK(fstrm_writer_write(w, "x", 1) == fstrm_res_success && fstrm_writer_close(w) == fstrm_res_success);
		fstrm_writer_destroy(&w);
		free(m.tx);
		CHECK(live == before, "%ld blocks leaked with %d content types", live - before, n);
	}
	return 0;
}
