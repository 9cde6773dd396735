#include "demo.h"
int main(void)
{
	static bb rx, want;
	ctl(&rx, C_ACCEPT, T("a", NULL, NULL));
	ctl(&want, C_READY, T("a", "a", "b")); ctl(&want, C_START, T("a", NULL, NULL));
	mem m = { .rx = rx.p, .nrx = rx.n };
	struct fstrm_writer *w = mem_writer(&m, true, T("a", "a", "b"));
	CHECK(fstrm_writer_open(w) == fstrm_res_success);
	CHECK(m.ntx == want.n && !memcmp(m.tx, want.p, want.n), "READY and START of %zu bytes instead of %zu", m.ntx, want.n);
	fstrm_writer_destroy(&w);
	return 0;
}
