#include "demo.h"
int main(void)
{
	for (int i = 0; i < 3; i++) {
		mem m = {0}; bb *rx = calloc(1, sizeof *rx);
		ctl(rx, C_ACCEPT, NULL);
		if (i == 1) ctl(rx, C_READY, NULL);
		if (i == 2) ctl(rx, C_FINISH, NULL);
		m.rx = rx->p; m.nrx = rx->n;
		struct fstrm_writer *w = mem_writer(&m, true, NULL);
		CHECK(fstrm_writer_write(w, "x", 1) == fstrm_res_success);
		CHECK((fstrm_writer_close(w) == fstrm_res_success) == (i == 2), "case %d", i);
		fstrm_writer_destroy(&w);
	}
	return 0;
}
