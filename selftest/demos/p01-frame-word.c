#include "demo.h"
int main(void)
{
	mem m = {0};
	bb *h = calloc(1, sizeof *h);
	ctl(h, C_START, T("t", NULL, NULL));
	unsigned n = 70000;
	uint8_t *p = malloc(h->n + n * 8 + 12);
	memcpy(p, h->p, h->n);
	size_t k = h->n;
	for (uint32_t i = 0; i < n; i++) { uint32_t l = htonl(4), v = htonl(i); memcpy(p + k, &l, 4); memcpy(p + k + 4, &v, 4); k += 8; }
	h->n = 0;
	ctl(h, C_STOP, NULL);
	memcpy(p + k, h->p, h->n); k += h->n;
	m.rx = p; m.nrx = k;
	struct fstrm_reader *r = mem_reader(&m, false, T("t", NULL, NULL));
	const uint8_t *d; size_t l;
	for (uint32_t i = 0; i < n; i++) {
		fstrm_res res = fstrm_reader_read(r, &d, &l);
		uint32_t v = htonl(i);
		CHECK(res == fstrm_res_success && l == 4 && memcmp(d, &v, 4) == 0, "frame %u: %d", i, res);
	}
	CHECK(fstrm_reader_read(r, &d, &l) == fstrm_res_stop);
	CHECK(fstrm_reader_destroy(&r) == fstrm_res_success && m.misuse == 0);
	return 0;
}
