#include "demo.h"
int main(void)
{
	struct fstrm_unix_writer_options *u = fstrm_unix_writer_options_init();
	fstrm_unix_writer_options_set_socket_path(u, "./no/such/socket");
	struct fstrm_writer *w = fstrm_unix_writer_init(u, NULL);
	CHECK(w != NULL);
	int before = dup(0); close(before);
	for (int i = 0; i < 20; i++) CHECK(fstrm_writer_open(w) != fstrm_res_success);
	fstrm_writer_destroy(&w);
	int after = dup(0);
	CHECK(before == after, "descriptors leak: next free was %d, is %d", before, after);
	return 0;
}
