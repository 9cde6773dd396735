#include "demo.h"
int main(void)
{
	struct fstrm_control *c = fstrm_control_init();
	fstrm_control_type t;
	CHECK(fstrm_control_set_type(c, FSTRM_CONTROL_READY) == fstrm_res_success);
	CHECK(fstrm_control_set_type(c, (fstrm_control_type)77) != fstrm_res_success);
	CHECK(fstrm_control_get_type(c, &t) == fstrm_res_success && t == FSTRM_CONTROL_READY, "the type is gone");
	return 0;
}
