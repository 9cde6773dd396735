#include "demo.h"
int main(void)
{
	static bb rx;
	ctl(&rx, C_START, NULL);
	for (int i = 0; i < 3; i++) ctl(&rx, 77, NULL);
	frame(&rx, "one", 3);
	for (int i = 0; i < 20; i++) ctl(&rx, 100 + i, NULL);
	frame(&rx, "two", 3);
	ctl(&rx, C_STOP, NULL);
	mem m = { .rx = rx.p, .nrx = rx.n };
	struct fstrm_reader *r = mem_reader(&m, false, NULL);
	const uint8_t *d; size_t n;
	CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_success && n == 3 && !memcmp(d, "one", 3));
	CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_success && n == 3 && !memcmp(d, "two", 3), "the frame after 20 frames of unknown types");
	CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_stop);
	fstrm_reader_destroy(&r);
	return 0;
}
