#include "demo.h"
int main(void)
{
	mem m = {0}; bb *e = calloc(1, sizeof *e);
	struct fstrm_writer *w = mem_writer(&m, false, T("one", "three", NULL));
	CHECK(fstrm_writer_write(w, "x", 1) == fstrm_res_success);
	CHECK(fstrm_writer_close(w) == fstrm_res_success);
	ctl(e, C_START, T("one", NULL, NULL)); frame(e, "x", 1); ctl(e, C_STOP, NULL);
	CHECK(m.ntx == e->n && !memcmp(m.tx, e->p, e->n));
	return 0;
}
