#include "iot.h"
int main(void)
{
	mem m = {0}; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	fstrm_iothr_options_set_flush_timeout(o, 2);
	struct fstrm_writer *w = mem_writer(&m, false, NULL);
	struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
	CHECK(sub(io, q, "x", 1) == fstrm_res_success);
	sleep(7);
	pthread_mutex_lock(&m.lock);
	size_t n = m.ntx;
	pthread_mutex_unlock(&m.lock);
	CHECK(n == 12 + 5, "7 s after the submission the frame was not written (flush timeout 2 s)");
	fstrm_iothr_destroy(&io);
	return 0;
}
