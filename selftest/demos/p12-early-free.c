#include "iot.h"
/* no release before the write: the transport knows what was released */
static char dat[8] = "abcdefg"; static volatile int rel[8]; static int early, done;
static void rel_cb(void *p, void *x) { (void) x; rel[(char *) p - dat]++; }
static fstrm_res wr(void *o, const struct iovec *v, int n)
{
	(void) o;
	for (int i = 0; i < n; i++)
		if (v[i].iov_len == 1) { int k = *(char *) v[i].iov_base - 'a'; if (k >= 0 && k < 7) { if (rel[k]) early++; done++; } }
	return fstrm_res_success;
}
int main(void)
{
	struct fstrm_iothr_options *o = fstrm_iothr_options_init(); mem mm = {0};
	struct fstrm_rdwr *r = mem_rdwr(&mm, false, true);
	fstrm_rdwr_set_write(r, wr);
	struct fstrm_writer *w = fstrm_writer_init(NULL, &r);
	struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
	for (int i = 0; i < 7; i++) CHECK(fstrm_iothr_submit(io, q, &dat[i], 1, rel_cb, NULL) == fstrm_res_success);
	fstrm_iothr_destroy(&io);
	for (int i = 0; i < 7; i++) CHECK(rel[i] == 1, "frame %d released %d times", i, rel[i]);
	CHECK(done == 7 && early == 0, "%d frames were released before they were written", early);
	return 0;
}
