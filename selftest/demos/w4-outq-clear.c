#include "iot.h"
int main(void)
{
	mem m = { .fail_write_at = 2, .fail_as = fstrm_res_stop }; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	struct fstrm_writer *w = mem_writer(&m, false, NULL);
	fstrm_iothr_options_set_flush_timeout(o, 1);
	struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
	unsigned acc = 0;
	usleep(200000);
	for (int k = 0; k < 10; k++) acc += sub(io, q, "hello", 5) == fstrm_res_success;
	fstrm_iothr_destroy(&io);
	CHECK(freed == acc, "%u of %u accepted frames were released", freed, acc);
	return 0;
}
