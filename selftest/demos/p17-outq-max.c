#include "iot.h"
#include <limits.h>
int main(void)
{
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	CHECK(fstrm_iothr_options_set_output_queue_size(o, 2) == fstrm_res_success);
	CHECK(fstrm_iothr_options_set_output_queue_size(o, 1) == fstrm_res_failure);
	CHECK(fstrm_iothr_options_set_output_queue_size(o, IOV_MAX) == fstrm_res_success);
	CHECK(fstrm_iothr_options_set_output_queue_size(o, IOV_MAX + 1) == fstrm_res_failure);
	return 0;
}
