#include "demo.h"
#include <malloc.h>
int main(void)
{
	mem m = { 0 };
	struct fstrm_rdwr *rd = mem_rdwr(&m, false, true);
	struct fstrm_writer_options *wo = fstrm_writer_options_init();
	fstrm_writer_options_add_content_type(wo, "test", 4);
	struct fstrm_writer *w = fstrm_writer_init(wo, &rd);
	fstrm_writer_options_destroy(&wo);
	size_t first = 0;
	for (int i = 0; i < 20000; i++) {
		CHECK(fstrm_writer_open(w) == fstrm_res_success);
		CHECK(fstrm_writer_write(w, "x", 1) == fstrm_res_success);
		CHECK(fstrm_writer_close(w) == fstrm_res_success);
		if (i == 100) first = mallinfo2().uordblks;
	}
	CHECK(mallinfo2().uordblks < first + 100000, "%zu bytes in use, %zu at first", mallinfo2().uordblks, first);
	fstrm_writer_destroy(&w);
	return 0;
}
