#include "demo.h"
int main(void)
{
	enum { N = 5000 };
	static char p[N][4]; static struct iovec v[N];
	for (int i = 0; i < N; i++) { snprintf(p[i], 4, "%03x", i & 0xfff); v[i].iov_base = p[i]; v[i].iov_len = 3; }
	mem m = {0}; struct fstrm_writer *w = mem_writer(&m, false, NULL);
	CHECK(fstrm_writer_open(w) == fstrm_res_success);
	CHECK(fstrm_writer_writev(w, v, N) == fstrm_res_success);
	CHECK(m.ntx == 12 + N * 7, "%zu bytes written", m.ntx);
	for (int i = 0; i < N; i++) CHECK(!memcmp(m.tx + 12 + i * 7 + 4, p[i], 3), "frame %d", i);
	fstrm_writer_destroy(&w);
	return 0;
}
