#include "iot.h"
int main(void)
{
	for (int round = 0; round < 20; round++) {
		mem m = {0}; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
		fstrm_iothr_options_set_buffer_hint(o, 1024);
		struct fstrm_writer *w = mem_writer(&m, false, NULL);
		struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
		struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
		char *big = calloc(1, 5000); uint8_t seq = 0; bb *e = calloc(1, sizeof *e);
		ctl(e, C_START, NULL);
		for (int i = 0; i < 5; i++) {
			size_t n = i == 3 ? 3000 : 10;
			big[0] = seq++;
			frame(e, big, n);
			CHECK(sub(io, q, big, n) == fstrm_res_success);
		}
		ctl(e, C_STOP, NULL);
		fstrm_iothr_destroy(&io);
		CHECK(m.ntx == e->n && !memcmp(m.tx, e->p, e->n), "frames are not written in submission order (round %d)", round);
	}
	return 0;
}
