#include "demo.h"
int main(void)
{
	mem m = {0}; bb *rx = calloc(1, sizeof *rx), *e = calloc(1, sizeof *e);
	ctl(rx, C_ACCEPT, T("", NULL, NULL)); ctl(rx, C_FINISH, NULL);
	m.rx = rx->p; m.nrx = rx->n;
	struct fstrm_writer *w = mem_writer(&m, true, T("", NULL, NULL));
	ctl(e, C_READY, T("", NULL, NULL)); ctl(e, C_START, T("", NULL, NULL)); frame(e, "x", 1); ctl(e, C_STOP, NULL);
	CHECK(fstrm_writer_write(w, "x", 1) == fstrm_res_success);
	CHECK(fstrm_writer_close(w) == fstrm_res_success);
	CHECK(m.ntx == e->n && !memcmp(m.tx, e->p, e->n), "%zu bytes instead of %zu", m.ntx, e->n);
	return 0;
}
