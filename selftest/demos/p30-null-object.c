#include "demo.h"
static int n;
static fstrm_res d(void *o) { n++; return fstrm_res_success; }
int main(void)
{
	struct fstrm_rdwr *x = fstrm_rdwr_init(NULL);
	fstrm_rdwr_set_destroy(x, d);
	fstrm_rdwr_destroy(&x);
	CHECK(n == 1, "destroyed %d times", n);
	return 0;
}
