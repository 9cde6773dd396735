#include "demo.h"
int main(void)
{
	static const fstrm_res as[] = { fstrm_res_failure, fstrm_res_again, fstrm_res_invalid, fstrm_res_stop };
	for (int i = 0; i < 4; i++) {
		mem m = { .fail_write_at = 2, .fail_as = as[i] };
		struct fstrm_writer *w = mem_writer(&m, false, NULL);
		CHECK(fstrm_writer_open(w) == fstrm_res_success);
		CHECK(fstrm_writer_write(w, "lost", 4) != fstrm_res_success);
		fstrm_res a = fstrm_writer_write(w, "next", 4), c = fstrm_writer_close(w);
		CHECK(a != fstrm_res_success || c != fstrm_res_success, "the stream goes on behind a lost frame (result %d)", as[i]);
		fstrm_writer_destroy(&w);
	}
	return 0;
}
