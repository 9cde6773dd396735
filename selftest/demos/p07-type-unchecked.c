#include "demo.h"
int main(void)
{
	static const int types[] = { C_START, C_STOP, C_READY, C_FINISH };
	for (int i = 0; i < 4; i++) {
		mem m = {0}; bb *rx = calloc(1, sizeof *rx);
		ctl(rx, types[i], NULL); ctl(rx, C_FINISH, NULL);
		m.rx = rx->p; m.nrx = rx->n;
		struct fstrm_writer *w = mem_writer(&m, true, NULL);
		CHECK(fstrm_writer_open(w) != fstrm_res_success, "READY answered with control frame type %d", types[i]);
		fstrm_writer_destroy(&w);
	}
	return 0;
}
