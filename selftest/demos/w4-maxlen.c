#include "iot.h"
int main(void)
{
	mem m = {0};
	struct fstrm_writer *w = mem_writer(&m, false, NULL);
	struct fstrm_iothr *io = fstrm_iothr_init(NULL, &w);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
	CHECK(fstrm_iothr_submit(io, q, "x", 0x100000001, NULL, NULL) != fstrm_res_success, "a frame of 4 GiB was accepted");
	fstrm_iothr_destroy(&io);
	return 0;
}
