#include "demo.h"
int main(void)
{
	struct fstrm_control *c = fstrm_control_init(), *d = fstrm_control_init(); uint8_t b[2000], t[200] = {0}; size_t n = sizeof b;
	CHECK(fstrm_control_set_type(c, FSTRM_CONTROL_READY) == fstrm_res_success);
	for (int i = 0; i < 2; i++) CHECK(fstrm_control_add_field_content_type(c, t, 200) == fstrm_res_success);
	CHECK(fstrm_control_encode(c, b, &n, FSTRM_CONTROL_FLAG_WITH_HEADER) == fstrm_res_success);
	CHECK(fstrm_control_decode(d, b, n, FSTRM_CONTROL_FLAG_WITH_HEADER) == fstrm_res_success);
	return 0;
}
