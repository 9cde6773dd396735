#include "demo.h"
#include <malloc.h>
#include <sys/resource.h>
int main(void)
{
	/* START, then a frame said to be of 2 GiB, then nothing */
	static uint8_t b[] = { 0,0,0,0, 0,0,0,4, 0,0,0,2, 0x80,0,0,0, 1,2,3,4 };
	mem m = { .rx = b, .nrx = sizeof b };
	struct rlimit l = { 512u << 20, 512u << 20 };
	setrlimit(RLIMIT_AS, &l);
	struct fstrm_rdwr *rd = mem_rdwr(&m, true, false);
	struct fstrm_reader *r = fstrm_reader_init(NULL, &rd);
	const uint8_t *d; size_t n;
	CHECK(fstrm_reader_open(r) == fstrm_res_success);
	CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_failure);
	fstrm_reader_destroy(&r);
	return 0;
}
