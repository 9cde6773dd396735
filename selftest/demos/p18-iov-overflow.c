// flags: -O1 -fsanitize=address
#include "demo.h"
int main(void)
{
	for (int n = 120; n <= 140; n++) {
		mem m = {0}; struct iovec v[140];
		struct fstrm_writer *w = mem_writer(&m, false, NULL);
		for (int i = 0; i < n; i++) { v[i].iov_base = "x"; v[i].iov_len = 1; }
		CHECK(fstrm_writer_writev(w, v, n) == fstrm_res_success);
		CHECK(fstrm_writer_close(w) == fstrm_res_success);
		fstrm_writer_destroy(&w);
		free(m.tx);
	}
	_exit(0);
}
