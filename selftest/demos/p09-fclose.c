#include "demo.h"
int main(void)
{
	struct fstrm_file_options *f = fstrm_file_options_init();
	fstrm_file_options_set_file_path(f, "/dev/full");
	struct fstrm_writer *w = fstrm_file_writer_init(f, NULL);
	CHECK(w != NULL);
	int bad = 0;
	if (fstrm_writer_open(w) != fstrm_res_success) bad = 1;
	if (!bad && fstrm_writer_write(w, "x", 1) != fstrm_res_success) bad = 1;
	if (!bad && fstrm_writer_close(w) != fstrm_res_success) bad = 1;
	CHECK(bad, "a stream to a full device was reported as written");
	return 0;
}
