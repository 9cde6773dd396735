#include "demo.h"
int main(void)
{
	char a[257], b[256];
	memset(a, 'a', 256); a[256] = 0;
	/* 4 + 8 + 256 + 8 + 236 = 512 */
	memset(b, 'b', 236); b[236] = 0;
	for (int n = 235; n <= 236; n++) {
		b[n] = 0; if (n == 236) b[235] = 'b';
		static bb rx; rx.n = 0;
		ctl(&rx, C_ACCEPT, T(a, b, NULL)); ctl(&rx, C_FINISH, NULL);
		mem m = { .rx = rx.p, .nrx = rx.n };
		struct fstrm_writer *w = mem_writer(&m, true, T(a, b, NULL));
		CHECK(fstrm_writer_open(w) == fstrm_res_success, "ACCEPT of %d bytes", 276 + n);
		CHECK(fstrm_writer_write(w, "x", 1) == fstrm_res_success);
		CHECK(fstrm_writer_close(w) == fstrm_res_success);
		fstrm_writer_destroy(&w);
	}
	return 0;
}
