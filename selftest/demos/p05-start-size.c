#include "demo.h"
int main(void)
{
	struct fstrm_control *c = fstrm_control_init(); uint8_t b[600]; size_t n = sizeof b, sz;
	CHECK(fstrm_control_set_type(c, FSTRM_CONTROL_START) == fstrm_res_success);
	CHECK(fstrm_control_add_field_content_type(c, (const uint8_t *) "abc", 3) == fstrm_res_success);
	if (fstrm_control_add_field_content_type(c, (const uint8_t *) "def", 3) != fstrm_res_success) return 0;
	CHECK(fstrm_control_encoded_size(c, &sz, 0) == fstrm_res_success);
	CHECK(fstrm_control_encode(c, b, &n, 0) == fstrm_res_success);
	CHECK(n == 15 && sz == 15, "encoded %zu announced %zu", n, sz);
	return 0;
}
