#include "iot.h"
int main(void)
{
	for (int i = 0; i < 20; i++) {
		mem m = { .fail_open = true }; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
		struct fstrm_writer *w = mem_writer(&m, false, NULL);
		struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
		struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
		unsigned acc = 0; freed = 0;
		for (int k = 0; k < 100; k++) acc += sub(io, q, "hello", 5) == fstrm_res_success;
		fstrm_iothr_destroy(&io);
		CHECK(freed == acc, "%u of %u accepted frames were released", freed, acc);
	}
	return 0;
}
