#include "demo.h"
int main(void)
{
	bb *b = calloc(1, sizeof *b);
	u32(b, 0); u32(b, 0x10004); u32(b, C_START); frame(b, "data", 4); ctl(b, C_STOP, NULL);
	mem m = { .rx = b->p, .nrx = b->n };
	struct fstrm_reader *r = mem_reader(&m, false, NULL);
	const uint8_t *d; size_t n;
	CHECK(fstrm_reader_read(r, &d, &n) != fstrm_res_success, "a control frame of 65540 bytes was accepted");
	return 0;
}
