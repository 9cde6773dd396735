#include "demo.h"
static int match(const char *have, const char *want)
{
	struct fstrm_control *c = fstrm_control_init();
	CHECK(fstrm_control_set_type(c, FSTRM_CONTROL_ACCEPT) == fstrm_res_success);
	CHECK(fstrm_control_add_field_content_type(c, (const uint8_t *) have, strlen(have)) == fstrm_res_success);
	fstrm_res r = fstrm_control_match_field_content_type(c, (const uint8_t *) want, strlen(want));
	fstrm_control_destroy(&c);
	return r == fstrm_res_success;
}
int main(void)
{
	CHECK(match("protobuf:dnstap", "protobuf:dnstap"));
	CHECK(!match("protobuf:dnstap.Dnstap", "protobuf:dnstap"));
	CHECK(!match("protobuf:dnstap", "protobuf:dnstap.Dnstap"));
	CHECK(!match("protobuf:dnstap", ""));
	return 0;
}
