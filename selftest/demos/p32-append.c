#include "demo.h"
#include <malloc.h>
int main(void)
{
	static uint8_t b[12 + 20000 * 1004 + 12] = { 0,0,0,0, 0,0,0,4, 0,0,0,2 };
	uint8_t *p = b + 12;
	for (int i = 0; i < 20000; i++, p += 1004) { p[2] = 1000 >> 8; p[3] = 1000 & 255; }
	p[7] = 4; p[11] = 3;
	mem m = { .rx = b, .nrx = sizeof b };
	struct fstrm_rdwr *rd = mem_rdwr(&m, true, false);
	struct fstrm_reader *r = fstrm_reader_init(NULL, &rd);
	const uint8_t *d; size_t n, k = 0;
	CHECK(fstrm_reader_open(r) == fstrm_res_success);
	while (fstrm_reader_read(r, &d, &n) == fstrm_res_success) k++;
	CHECK(k == 20000);
	struct mallinfo2 a = mallinfo2();
	CHECK(a.uordblks + a.hblkhd < 2000000, "%zu bytes in use after 20000 frames of 1000 bytes", a.uordblks + a.hblkhd);
	fstrm_reader_destroy(&r);
	return 0;
}
