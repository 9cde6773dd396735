#include "demo.h"
int main(void)
{
	struct fstrm_control *c = fstrm_control_init();
	fstrm_control_type t;
	CHECK(fstrm_control_get_type(c, &t) != fstrm_res_success);
	CHECK(fstrm_control_set_type(c, FSTRM_CONTROL_READY) == fstrm_res_success);
	fstrm_control_reset(c);
	CHECK(fstrm_control_get_type(c, &t) != fstrm_res_success, "type %d after reset", t);
	return 0;
}
