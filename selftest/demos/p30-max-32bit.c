#include "demo.h"
int main(void)
{
	struct fstrm_reader_options *o = fstrm_reader_options_init();
	CHECK(fstrm_reader_options_set_max_frame_size(o, 4096) == fstrm_res_success);
	CHECK(fstrm_reader_options_set_max_frame_size(o, ((size_t)1 << 32) + 4096) != fstrm_res_success);
	return 0;
}
