#include "demo.h"
int main(void)
{
	struct fstrm_control *c = fstrm_control_init();
	CHECK(fstrm_control_set_type(c, FSTRM_CONTROL_ACCEPT) == fstrm_res_success);
	for (int n = 0; n < 45; n++) {
		uint8_t t[2] = { 'a' + n, n };
		CHECK(fstrm_control_add_field_content_type(c, t, 2) == fstrm_res_success);
		for (int i = 0; i < 50; i++) {
			uint8_t u[2] = { 'a' + i, i };
			CHECK((fstrm_control_match_field_content_type(c, u, 2) == fstrm_res_success) == (i <= n), "type %d of %d", i, n + 1);
		}
	}
	fstrm_control_destroy(&c);
	return 0;
}
