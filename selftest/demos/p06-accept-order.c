#include "demo.h"
int main(void)
{
	mem m = {0}; bb *rx = calloc(1, sizeof *rx), *e = calloc(1, sizeof *e);
	ctl(rx, C_READY, T("a", "c", NULL)); ctl(rx, C_START, T("c", NULL, NULL)); frame(rx, "x", 1); ctl(rx, C_STOP, NULL);
	m.rx = rx->p; m.nrx = rx->n;
	struct fstrm_reader *r = mem_reader(&m, true, T("a", "b", "c"));
	CHECK(fstrm_reader_open(r) == fstrm_res_success);
	ctl(e, C_ACCEPT, T("a", "c", NULL));
	CHECK(m.ntx == e->n && !memcmp(m.tx, e->p, e->n), "ACCEPT has %zu bytes instead of %zu", m.ntx, e->n);
	return 0;
}
