#include "demo.h"
int main(void)
{
	for (unsigned at = 1; at <= 3; at++) {
		mem m = { .fail_write_at = at, .fail_as = fstrm_res_failure };
		struct fstrm_writer *w = mem_writer(&m, false, NULL);
		int bad = 0;
		if (fstrm_writer_open(w) != fstrm_res_success) bad = 1;
		if (!bad && fstrm_writer_write(w, "x", 1) != fstrm_res_success) bad = 1;
		if (!bad && fstrm_writer_close(w) != fstrm_res_success) bad = 1;
		CHECK(bad, "failure of write %u was not reported", at);
		fstrm_writer_destroy(&w);
	}
	return 0;
}
