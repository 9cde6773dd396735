#include "demo.h"
static fstrm_res bad(void *o) { return fstrm_res_failure; }
int main(void)
{
	struct fstrm_rdwr *x = fstrm_rdwr_init(NULL);
	fstrm_rdwr_set_destroy(x, bad);
	CHECK(fstrm_rdwr_destroy(&x) == fstrm_res_failure);
	return 0;
}
