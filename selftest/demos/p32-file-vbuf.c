#include "demo.h"
#include <malloc.h>
int main(void)
{
	struct fstrm_file_options *fo = fstrm_file_options_init();
	fstrm_file_options_set_file_path(fo, "out");
	struct fstrm_writer *w = fstrm_file_writer_init(fo, NULL);
	fstrm_file_options_destroy(&fo);
	size_t first = 0;
	for (int i = 0; i < 1000; i++) {
		CHECK(fstrm_writer_open(w) == fstrm_res_success);
		CHECK(fstrm_writer_write(w, "x", 1) == fstrm_res_success);
		CHECK(fstrm_writer_close(w) == fstrm_res_success);
		if (i == 100) first = mallinfo2().uordblks + mallinfo2().hblkhd;
	}
	size_t last = mallinfo2().uordblks + mallinfo2().hblkhd;
	CHECK(last < first + 1000000, "%zu bytes in use, %zu at first", last, first);
	fstrm_writer_destroy(&w);
	return 0;
}
