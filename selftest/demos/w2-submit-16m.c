#include "iot.h"
int main(void)
{
	mem m = {0}; struct fstrm_writer *w = mem_writer(&m, false, NULL);
	struct fstrm_iothr *io = fstrm_iothr_init(NULL, &w);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
	size_t n = (1 << 24) + 1;
	char *p = calloc(1, n);
	CHECK(fstrm_iothr_submit(io, q, p, n - 1, NULL, NULL) == fstrm_res_success);
	CHECK(fstrm_iothr_submit(io, q, p, n, NULL, NULL) == fstrm_res_success, "a frame of %zu bytes", n);
	fstrm_iothr_destroy(&io);
	return 0;
}
