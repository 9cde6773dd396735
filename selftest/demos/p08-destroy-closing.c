#include "demo.h"
int main(void)
{
	bb *b = calloc(1, sizeof *b);
	ctl(b, C_START, NULL); frame(b, "in", 2); ctl(b, C_STOP, NULL);
	mem m = { .rx = b->p, .nrx = b->n };
	struct fstrm_reader *r = mem_reader(&m, false, NULL);
	const uint8_t *d; size_t n;
	CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_success);
	CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_stop);
	fstrm_reader_destroy(&r);
	CHECK(m.nopen == 1 && m.nclose == 1 && m.ndestroy == 1 && !m.misuse, "closed %u times", m.nclose);
	return 0;
}
