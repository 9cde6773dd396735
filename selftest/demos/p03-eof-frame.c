#include "demo.h"
int main(void)
{
	bb *b = calloc(1, sizeof *b);
	ctl(b, C_START, NULL); frame(b, "complete", 8); frame(b, "truncated", 9);
	for (int cut = 1; cut <= 9; cut++) {
		mem m = { .rx = b->p, .nrx = b->n - cut };
		struct fstrm_reader *r = mem_reader(&m, false, NULL);
		const uint8_t *d; size_t n;
		CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_success && n == 8 && !memcmp(d, "complete", 8));
		CHECK(fstrm_reader_read(r, &d, &n) != fstrm_res_success, "an incomplete frame was delivered, %d bytes missing", cut);
	}
	return 0;
}
