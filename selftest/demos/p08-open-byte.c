#include "demo.h"
int main(void)
{
	/* a writer that has lost and made again n connections is destroyed while it is connected */
	for (unsigned n = 250; n < 260; n++) {
		mem m = {0};
		struct fstrm_writer *w = mem_writer(&m, false, T("t", NULL, NULL));
		for (unsigned i = 0; i < n; i++) {
			if (i) {
				m.fail_write_at = m.nwrites + 1; m.fail_as = fstrm_res_failure;
				CHECK(fstrm_writer_write(w, "x", 1) != fstrm_res_success);
				m.fail_write_at = 0;
				fstrm_writer_close(w);
			}
			fstrm_res res = fstrm_writer_open(w);
			if (res != fstrm_res_success) res = fstrm_writer_open(w);
			CHECK(res == fstrm_res_success, "open %u: %d", i, res);
		}
		fstrm_writer_destroy(&w);
		CHECK(m.nopen == m.nclose && m.misuse == 0, "%u: opened %u, closed %u times", n, m.nopen, m.nclose);
	}
	return 0;
}
