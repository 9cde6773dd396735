#include "demo.h"
int main(void)
{
	mem m = { 0 };
	struct fstrm_rdwr *x = mem_rdwr(&m, false, true);
	CHECK(!fstrm_reader_init(NULL, &x));
	CHECK(x && m.ndestroy == 0, "the transport was destroyed");
	struct fstrm_writer *w = fstrm_writer_init(NULL, &x);
	CHECK(w && fstrm_writer_write(w, "x", 1) == fstrm_res_success);
	return 0;
}
