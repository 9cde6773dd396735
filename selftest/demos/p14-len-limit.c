#include "iot.h"
static void nofree(void *p, void *x) { (void) p; (void) x; }
static fstrm_res wr(void *o, const struct iovec *v, int n) { (void) o; (void) v; (void) n; return fstrm_res_success; }
int main(void)
{
	mem m = {0}; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	struct fstrm_rdwr *r = mem_rdwr(&m, false, true);
	fstrm_rdwr_set_write(r, wr);		/* looks at nothing */
	struct fstrm_writer *w = fstrm_writer_init(NULL, &r);
	struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
	char b[4] = "abc";
	CHECK(fstrm_iothr_submit(io, q, b, UINT32_MAX, nofree, NULL) == fstrm_res_invalid, "a frame of 4 GiB - 1");
	CHECK(fstrm_iothr_submit(io, q, b, (size_t) UINT32_MAX + 1, nofree, NULL) == fstrm_res_invalid);
	CHECK(fstrm_iothr_submit(io, q, b, 0, nofree, NULL) == fstrm_res_invalid);
	CHECK(fstrm_iothr_submit(io, q, NULL, 1, nofree, NULL) == fstrm_res_invalid);
	CHECK(fstrm_iothr_submit(io, q, b, 1, nofree, NULL) == fstrm_res_success);
	fstrm_iothr_destroy(&io);
	return 0;
}
