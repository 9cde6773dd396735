#include "demo.h"
int main(void)
{
	static const size_t lens[] = { 1, 65537, 1048575, 1048577, 3000001 };
	for (int k = 0; k < 5; k++) {
		uint8_t *p = malloc(lens[k]);
		for (size_t i = 0; i < lens[k]; i++) p[i] = i * 7 + (i >> 8);
		struct fstrm_file_options *fo = fstrm_file_options_init();
		fstrm_file_options_set_file_path(fo, "big.fs");
		struct fstrm_writer *w = fstrm_file_writer_init(fo, NULL);
		CHECK(w && fstrm_writer_write(w, p, lens[k]) == fstrm_res_success && fstrm_writer_write(w, "end", 3) == fstrm_res_success);
		CHECK(fstrm_writer_destroy(&w) == fstrm_res_success);
		struct fstrm_reader_options *ro = fstrm_reader_options_init();
		fstrm_reader_options_set_max_frame_size(ro, 1 << 24);
		struct fstrm_reader *r = fstrm_file_reader_init(fo, ro);
		const uint8_t *d; size_t n;
		CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_success && n == lens[k] && !memcmp(d, p, n), "%zu bytes", lens[k]);
		CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_success && n == 3 && !memcmp(d, "end", 3), "after %zu bytes", lens[k]);
		CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_stop);
		fstrm_reader_destroy(&r);
		free(p);
	}
	return 0;
}
