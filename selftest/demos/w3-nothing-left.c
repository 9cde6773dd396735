#include "iot.h"
/* the peer is slow: while it takes a write, the input queue is filled again */
static volatile int written; static volatile bool go = true;
static fstrm_res wr(void *o, const struct iovec *v, int n)
{
	(void) o; (void) v;
	if (n > 1) { usleep(30000); __sync_fetch_and_add(&written, n / 2); }
	return fstrm_res_success;
}
int main(void)
{
	mem m = {0}; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	CHECK(fstrm_iothr_options_set_input_queue_size(o, 8) == fstrm_res_success);
	CHECK(fstrm_iothr_options_set_output_queue_size(o, 2) == fstrm_res_success);
	CHECK(fstrm_iothr_options_set_queue_notify_threshold(o, 4) == fstrm_res_success);
	CHECK(fstrm_iothr_options_set_flush_timeout(o, 5) == fstrm_res_success);
	struct fstrm_rdwr *r = mem_rdwr(&m, false, true);
	fstrm_rdwr_set_write(r, wr);
	struct fstrm_writer *w = fstrm_writer_init(NULL, &r);
	struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
	fstrm_iothr_options_destroy(&o);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
	usleep(300000);
	double t0 = now();
	int n = 0;
	while (n < 60 && now() - t0 < 20) if (sub(io, q, "frame", 5) == fstrm_res_success) n++; else usleep(1000);
	double t = now() - t0;
	CHECK(n == 60 && t < 14, "%d submissions took %.1f s although the output takes a second for all", n, t);
	fstrm_iothr_destroy(&io);
	return 0;
}
