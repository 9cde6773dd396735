#include "demo.h"
int main(void)
{
	struct fstrm_file_options *o = fstrm_file_options_init();
	fstrm_file_options_set_file_path(o, "-out.fstrm");
	struct fstrm_writer *w = fstrm_file_writer_init(o, NULL);
	CHECK(fstrm_writer_write(w, "hello", 5) == fstrm_res_success && fstrm_writer_close(w) == fstrm_res_success);
	CHECK(!access("./-out.fstrm", R_OK), "the file does not exist");
	return 0;
}
