#include "demo.h"
int main(void)
{
	mem m = {0}; bb *rx = calloc(1, sizeof *rx);
	ctl(rx, 6, NULL); ctl(rx, C_ACCEPT, T("t", NULL, NULL)); ctl(rx, C_FINISH, NULL);
	m.rx = rx->p; m.nrx = rx->n;
	struct fstrm_writer *w = mem_writer(&m, true, T("t", NULL, NULL));
	CHECK(fstrm_writer_open(w) != fstrm_res_success, "the first reply is not ACCEPT");
	fstrm_writer_destroy(&w);
	return 0;
}
