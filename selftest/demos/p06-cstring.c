#include "demo.h"
int main(void)
{
	struct fstrm_control *c = fstrm_control_init();
	CHECK(fstrm_control_set_type(c, FSTRM_CONTROL_READY) == fstrm_res_success);
	CHECK(fstrm_control_add_field_content_type(c, (const uint8_t *) "a\0bc", 4) == fstrm_res_success);
	CHECK(fstrm_control_match_field_content_type(c, (const uint8_t *) "a\0bc", 4) == fstrm_res_success);
	CHECK(fstrm_control_match_field_content_type(c, (const uint8_t *) "a\0bd", 4) != fstrm_res_success);
	return 0;
}
