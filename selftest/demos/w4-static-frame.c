// flags: clang -O1 -fsanitize=thread
#include "demo.h"
static void *go(void *x)
{
	for (int i = 0; i < 200; i++) {
		mem m = {0};
		struct fstrm_writer *w = mem_writer(&m, false, T(x, NULL, NULL));
		CHECK(fstrm_writer_open(w) == fstrm_res_success && fstrm_writer_close(w) == fstrm_res_success);
		fstrm_writer_destroy(&w);
	}
	return NULL;
}
static void *go2(void *x)
{
	static const char *t[] = { "other", NULL };
	for (int i = 0; i < 200; i++) {
		mem m = {0};
		struct fstrm_writer *w = mem_writer(&m, false, t);
		CHECK(fstrm_writer_open(w) == fstrm_res_success && fstrm_writer_close(w) == fstrm_res_success);
		fstrm_writer_destroy(&w);
	}
	(void) x;
	return NULL;
}
int main(void)
{
	pthread_t a, b;
	pthread_create(&a, NULL, go, "one"); pthread_create(&b, NULL, go2, NULL);
	pthread_join(a, NULL); pthread_join(b, NULL);
	return 0;
}
