// flags: -O1 -fsanitize=address
#include "demo.h"
int main(void)
{
	for (int n = 0; n < 70; n++) {
		char t[16];
		struct fstrm_writer_options *o = fstrm_writer_options_init();
		struct fstrm_control *c = fstrm_control_init();
		CHECK(fstrm_control_set_type(c, FSTRM_CONTROL_READY) == fstrm_res_success);
		for (int i = 0; i < n; i++) {
			snprintf(t, sizeof t, "type%d", i);
			CHECK(fstrm_writer_options_add_content_type(o, t, strlen(t)) == fstrm_res_success);
			CHECK(fstrm_control_add_field_content_type(c, (uint8_t *) t, strlen(t)) == fstrm_res_success);
		}
		fstrm_control_destroy(&c);
		fstrm_writer_options_destroy(&o);
	}
	_exit(0);
}
