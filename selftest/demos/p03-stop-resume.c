#include "demo.h"
int main(void)
{
	bb *b = calloc(1, sizeof *b);
	ctl(b, C_START, NULL); frame(b, "in", 2); ctl(b, C_STOP, NULL); frame(b, "behind", 6);
	mem m = { .rx = b->p, .nrx = b->n };
	struct fstrm_reader *r = mem_reader(&m, false, NULL);
	const uint8_t *d; size_t n;
	CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_success);
	CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_stop);
	CHECK(fstrm_reader_read(r, &d, &n) != fstrm_res_success, "data behind STOP was delivered");
	return 0;
}
