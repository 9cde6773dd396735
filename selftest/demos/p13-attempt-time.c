#include "iot.h"
int main(void)
{
	mem m = { .fail_open = true }; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	fstrm_iothr_options_set_flush_timeout(o, 1);
	fstrm_iothr_options_set_reopen_interval(o, 3);
	struct fstrm_writer *w = mem_writer(&m, false, NULL);
	struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
	for (double t = now(); now() < t + 5.5; usleep(1000))
		for (int k = 0; k < 20; k++) sub(io, q, "hello", 5);
	CHECK(m.nopen >= 1 && m.nopen <= 3, "%u attempts to open within 5.5 s with an interval of 3 s", m.nopen);
	fstrm_iothr_destroy(&io);
	return 0;
}
