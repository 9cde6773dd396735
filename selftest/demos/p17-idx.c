#include "iot.h"
int main(void)
{
	mem m = {0}; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	fstrm_iothr_options_set_num_input_queues(o, 3);
	struct fstrm_writer *w = mem_writer(&m, false, NULL);
	struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
	for (size_t i = 0; i < 3; i++) CHECK(fstrm_iothr_get_input_queue_idx(io, i) != NULL);
	for (int b = 2; b < 64; b++) {
		CHECK(fstrm_iothr_get_input_queue_idx(io, (size_t) 1 << b) == NULL, "queue 2^%d of 3", b);
		CHECK(fstrm_iothr_get_input_queue_idx(io, ((size_t) 1 << b) + 1) == NULL);
	}
	CHECK(fstrm_iothr_get_input_queue_idx(io, 3) == NULL && fstrm_iothr_get_input_queue_idx(io, SIZE_MAX) == NULL);
	fstrm_iothr_destroy(&io);
	return 0;
}
