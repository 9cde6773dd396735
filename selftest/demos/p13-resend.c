#include "iot.h"
/* write 1 is START, write 2 the data (fails); nothing of it may appear on the next connection */
int main(void)
{
	mem m = { .fail_write_at = 2, .fail_as = fstrm_res_failure }; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	fstrm_iothr_options_set_flush_timeout(o, 1);
	fstrm_iothr_options_set_reopen_interval(o, 1);
	struct fstrm_writer *w = mem_writer(&m, false, NULL);
	struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
	CHECK(sub(io, q, "lost", 4) == fstrm_res_success);
	for (double t = now(); m.nopen < 2 && now() < t + 20; usleep(10000));
	CHECK(m.nopen >= 2, "no second connection");
	usleep(100000);
	CHECK(sub(io, q, "after", 5) == fstrm_res_success);
	sleep(2);
	fstrm_iothr_destroy(&io);
	bb *e = calloc(1, sizeof *e);
	ctl(e, C_START, NULL); frame(e, "after", 5); ctl(e, C_STOP, NULL);
	CHECK(m.ntx == e->n && !memcmp(m.tx, e->p, e->n), "%zu bytes on the second connection instead of %zu", m.ntx, e->n);
	return 0;
}
