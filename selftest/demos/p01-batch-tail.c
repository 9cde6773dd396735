#include "demo.h"
/* the number of frames is chosen around multiples of the batch sizes a writer may use */
int main(void)
{
	static const int counts[] = { 1, 2, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 1025 };
	for (unsigned k = 0; k < sizeof counts / sizeof *counts; k++) {
		mem m = {0}; struct iovec v[1100]; uint16_t pay[1100];
		struct fstrm_writer *w = mem_writer(&m, false, T("t", NULL, NULL));
		for (int i = 0; i < counts[k]; i++) { pay[i] = i; v[i].iov_base = &pay[i]; v[i].iov_len = 2; }
		CHECK(fstrm_writer_writev(w, v, counts[k]) == fstrm_res_success);
		CHECK(fstrm_writer_close(w) == fstrm_res_success);
		mem r = { .rx = m.tx, .nrx = m.ntx };
		struct fstrm_reader *rd = mem_reader(&r, false, NULL);
		const uint8_t *d; size_t n; int got = 0;
		while (fstrm_reader_read(rd, &d, &n) == fstrm_res_success) { CHECK(n == 2 && !memcmp(d, &pay[got], 2)); got++; }
		CHECK(got == counts[k], "%d of %d frames arrived", got, counts[k]);
	}
	return 0;
}
