#include "iot.h"
int main(void)
{
	/* the second write (the first with data) fails, whatever was collected until then */
	for (int n = 1; n < 300; n *= 2) {
		mem m = { .fail_write_at = 2, .fail_as = fstrm_res_failure }; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
		fstrm_iothr_options_set_output_queue_size(o, 512);
		fstrm_iothr_options_set_buffer_hint(o, 65536);
		struct fstrm_writer *w = mem_writer(&m, false, NULL);
		struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
		struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
		unsigned acc = 0; freed = 0;
		for (int i = 0; i < n; i++) acc += sub(io, q, "hello", 5) == fstrm_res_success;
		fstrm_iothr_destroy(&io);
		CHECK(freed == acc, "%u of %u accepted frames were released", freed, acc);
	}
	return 0;
}
