#include "demo.h"
static uint8_t s[12 + 4 + 1000];
int main(void)
{
	struct fstrm_reader_options *o = fstrm_reader_options_init();
	CHECK(fstrm_reader_options_set_max_frame_size(o, (size_t)-1) != fstrm_res_success);
	s[7] = 4; s[11] = 2; s[14] = 1000 >> 8; s[15] = 1000 & 255;
	mem m = { .rx = s, .nrx = sizeof s };
	struct fstrm_rdwr *x = mem_rdwr(&m, true, false);
	struct fstrm_reader *r = fstrm_reader_init(o, &x);
	const uint8_t *d;
	size_t n;
	CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_success && n == 1000, "a frame of 1000 bytes is refused");
	return 0;
}
