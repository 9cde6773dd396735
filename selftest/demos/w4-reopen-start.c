#include "demo.h"
int main(void)
{
	mem m = {0}; bb *r1 = calloc(1, sizeof *r1), *r2 = calloc(1, sizeof *r2), *e = calloc(1, sizeof *e);
	ctl(r1, C_ACCEPT, T("first", NULL, NULL)); ctl(r1, C_FINISH, NULL);
	ctl(r2, C_ACCEPT, T("second", NULL, NULL)); ctl(r2, C_FINISH, NULL);
	m.rx = r1->p; m.nrx = r1->n;
	struct fstrm_writer *w = mem_writer(&m, true, T("first", "second", NULL));
	CHECK(fstrm_writer_open(w) == fstrm_res_success);
	CHECK(fstrm_writer_close(w) == fstrm_res_success);
	m.rx = r2->p; m.nrx = r2->n;
	CHECK(fstrm_writer_open(w) == fstrm_res_success);
	CHECK(fstrm_writer_write(w, "x", 1) == fstrm_res_success);
	CHECK(fstrm_writer_close(w) == fstrm_res_success);
	ctl(e, C_READY, T("first", "second", NULL)); ctl(e, C_START, T("second", NULL, NULL)); frame(e, "x", 1); ctl(e, C_STOP, NULL);
	CHECK(m.ntx == e->n && !memcmp(m.tx, e->p, e->n), "the second stream is not what was negotiated");
	return 0;
}
