#include "demo.h"
int main(void)
{
	mem m = { .fail_close = true };
	struct fstrm_rdwr *r = mem_rdwr(&m, true, true);
	CHECK(fstrm_rdwr_open(r) == fstrm_res_success);
	CHECK(fstrm_rdwr_close(r) != fstrm_res_success);
	fstrm_rdwr_close(r);
	struct iovec v = { "x", 1 };
	CHECK(fstrm_rdwr_write(r, &v, 1) != fstrm_res_success);
	fstrm_rdwr_destroy(&r);
	CHECK(m.misuse == 0 && m.nclose == 1 && m.ndestroy == 1, "misused %u times, closed %u times", m.misuse, m.nclose);
	return 0;
}
