#include "iot.h"
int main(void)
{
	mem m = {0}; struct fstrm_writer *w = mem_writer(&m, false, NULL);
	struct fstrm_iothr *io = fstrm_iothr_init(NULL, &w);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
	for (int i = 0; i < 20; i++) CHECK(sub(io, q, "frame", 5) == fstrm_res_success);
	fstrm_iothr_destroy(&io);
	CHECK(freed == 20, "%u of 20 frames released", freed);
	return 0;
}
