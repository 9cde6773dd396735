#include "iot.h"
int main(void)
{
	mem m = {0}; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	fstrm_iothr_options_set_flush_timeout(o, 600);
	fstrm_iothr_options_set_num_input_queues(o, 2);
	fstrm_iothr_options_set_input_queue_size(o, 64);
	fstrm_iothr_options_set_queue_notify_threshold(o, 32);
	struct fstrm_writer *w = mem_writer(&m, false, NULL);
	struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
	fstrm_iothr_get_input_queue(io);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
	sleep(2);				/* the I/O thread sleeps */
	for (int i = 0; i < 63; i++) CHECK(sub(io, q, "x", 1) == fstrm_res_success);
	sleep(2);				/* it has been woken and has emptied the queue */
	CHECK(sub(io, q, "x", 1) == fstrm_res_success, "the I/O thread was not woken by a filled queue");
	fstrm_iothr_destroy(&io);
	return 0;
}
