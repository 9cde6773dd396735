#include "iot.h"
static size_t most;
static fstrm_res wr(void *o, const struct iovec *v, int n)
{
	size_t t = 0;
	(void) o;
	for (int i = 0; i + 2 < n; i++) t += v[i].iov_len;
	if (t > most) most = t;
	return fstrm_res_success;
}
int main(void)
{
	mem m = {0}; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	CHECK(fstrm_iothr_options_set_buffer_hint(o, 1024) == fstrm_res_success);
	struct fstrm_rdwr *r = mem_rdwr(&m, false, true);
	fstrm_rdwr_set_write(r, wr);
	struct fstrm_writer *w = fstrm_writer_init(NULL, &r);
	struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
	fstrm_iothr_options_destroy(&o);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
	char b[500]; memset(b, 'x', sizeof b);
	for (int i = 0; i < 30; i++) CHECK(sub(io, q, b, sizeof b) == fstrm_res_success);
	fstrm_iothr_destroy(&io);
	CHECK(most <= 1024 + 16, "%zu bytes were accumulated with a buffer hint of 1024", most);
	return 0;
}
