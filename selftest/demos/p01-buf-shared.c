#include "demo.h"
int main(void)
{
	bb *a = calloc(1, sizeof *a), *b = calloc(1, sizeof *b);
	ctl(a, C_START, NULL); frame(a, "first", 5); ctl(a, C_STOP, NULL);
	ctl(b, C_START, NULL); frame(b, "SECOND", 6); ctl(b, C_STOP, NULL);
	mem ma = { .rx = a->p, .nrx = a->n }, mb = { .rx = b->p, .nrx = b->n };
	struct fstrm_reader *ra = mem_reader(&ma, false, NULL), *rb = mem_reader(&mb, false, NULL);
	const uint8_t *da, *db; size_t na, nb;
	CHECK(fstrm_reader_read(ra, &da, &na) == fstrm_res_success);
	CHECK(fstrm_reader_read(rb, &db, &nb) == fstrm_res_success);
	CHECK(na == 5 && !memcmp(da, "first", 5), "a frame changed when another reader read");
	CHECK(nb == 6 && !memcmp(db, "SECOND", 6));
	return 0;
}
