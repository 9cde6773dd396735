#include "demo.h"
int main(void)
{
	static const size_t lens[] = { 1, 65535, 65537, 131072, 131073, 200001, 1048576 };
	for (int k = 0; k < 7; k++) {
		mem m = {0};
		uint8_t *p = malloc(lens[k]);
		for (size_t i = 0; i < lens[k]; i++) p[i] = i * 7 + (i >> 8);
		struct fstrm_writer *w = mem_writer(&m, false, NULL);
		CHECK(fstrm_writer_write(w, p, lens[k]) == fstrm_res_success && fstrm_writer_write(w, "end", 3) == fstrm_res_success);
		CHECK(fstrm_writer_close(w) == fstrm_res_success);
		mem i = { .rx = m.tx, .nrx = m.ntx };
		struct fstrm_reader *r = mem_reader(&i, false, NULL);
		const uint8_t *d; size_t n;
		CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_success && n == lens[k] && !memcmp(d, p, n), "%zu bytes", lens[k]);
		CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_success && n == 3 && !memcmp(d, "end", 3), "after %zu bytes", lens[k]);
		CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_stop);
		free(p);
	}
	return 0;
}
