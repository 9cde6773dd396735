#include "iot.h"
/* every configured queue is served */
int main(void)
{
	static const unsigned counts[] = { 1, 8, 100, 300, 1000 };
	for (unsigned k = 0; k < 5; k++) {
		mem m = {0}; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
		fstrm_iothr_options_set_num_input_queues(o, counts[k]);
		struct fstrm_writer *w = mem_writer(&m, false, NULL);
		struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
		freed = 0;
		for (unsigned i = 0; i < counts[k]; i++) CHECK(sub(io, fstrm_iothr_get_input_queue_idx(io, i), "xyz", 3) == fstrm_res_success);
		fstrm_iothr_destroy(&io);
		CHECK(freed == counts[k] && m.ntx == 12 + 7 * counts[k] + 12, "%u queues, %u frames freed, %zu bytes", counts[k], freed, m.ntx);
		fstrm_iothr_options_destroy(&o);
	}
	return 0;
}
