#include "demo.h"
int main(void)
{
	mem m = {0}; bb *rx = calloc(1, sizeof *rx), *e = calloc(1, sizeof *e);
	ctl(rx, C_ACCEPT, T("first", NULL, NULL)); ctl(rx, C_FINISH, NULL);
	m.rx = rx->p; m.nrx = rx->n;
	struct fstrm_writer *w = mem_writer(&m, true, T("first", "second", NULL));
	CHECK(fstrm_writer_write(w, "x", 1) == fstrm_res_success, "the peer accepted the first content type");
	CHECK(fstrm_writer_close(w) == fstrm_res_success);
	ctl(e, C_READY, T("first", "second", NULL)); ctl(e, C_START, T("first", NULL, NULL)); frame(e, "x", 1); ctl(e, C_STOP, NULL);
	CHECK(m.ntx == e->n && !memcmp(m.tx, e->p, e->n));
	return 0;
}
