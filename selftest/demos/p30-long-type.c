#include "demo.h"
int main(void)
{
	static char t[400];
	struct fstrm_writer_options *o = fstrm_writer_options_init();
	CHECK(fstrm_writer_options_add_content_type(o, t, 256) == fstrm_res_success);
	CHECK(fstrm_writer_options_add_content_type(o, t, 257) != fstrm_res_success);
	return 0;
}
