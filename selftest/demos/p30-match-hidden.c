#include "demo.h"
int main(void)
{
	struct fstrm_control *c = fstrm_control_init();
	fstrm_control_set_type(c, FSTRM_CONTROL_START);
	fstrm_control_add_field_content_type(c, (const uint8_t *)"one", 3);
	fstrm_control_add_field_content_type(c, (const uint8_t *)"two", 3);
	CHECK(fstrm_control_match_field_content_type(c, (const uint8_t *)"one", 3) == fstrm_res_success);
	CHECK(fstrm_control_match_field_content_type(c, (const uint8_t *)"two", 3) != fstrm_res_success, "the second content type of a START frame matches");
	return 0;
}
