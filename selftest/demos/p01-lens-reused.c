#include "demo.h"
int main(void)
{
	mem m = {0}; bb *e = calloc(1, sizeof *e);
	static uint8_t pay[100]; struct iovec v[90];
	struct fstrm_writer *w = mem_writer(&m, false, NULL);
	ctl(e, C_START, NULL);
	for (int i = 0; i < 90; i++) { v[i].iov_base = pay; v[i].iov_len = i + 1; frame(e, pay, i + 1); }
	ctl(e, C_STOP, NULL);
	CHECK(fstrm_writer_writev(w, v, 90) == fstrm_res_success);
	CHECK(fstrm_writer_close(w) == fstrm_res_success);
	mem r = { .rx = m.tx, .nrx = m.ntx };
	struct fstrm_reader *rd = mem_reader(&r, false, NULL);
	for (int i = 0; i < 90; i++) {
		const uint8_t *d; size_t n;
		CHECK(fstrm_reader_read(rd, &d, &n) == fstrm_res_success, "frame %d", i);
		CHECK(n == (size_t) i + 1, "frame %d has %zu bytes", i, n);
	}
	CHECK(m.ntx == e->n && !memcmp(m.tx, e->p, e->n));
	return 0;
}
