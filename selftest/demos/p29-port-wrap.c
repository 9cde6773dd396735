#include "demo.h"
static struct fstrm_writer *tw(const char *a, const char *p)
{
	struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init();
	fstrm_tcp_writer_options_set_socket_address(o, a);
	fstrm_tcp_writer_options_set_socket_port(o, p);
	struct fstrm_writer *w = fstrm_tcp_writer_init(o, NULL);
	fstrm_tcp_writer_options_destroy(&o);
	return w;
}
int main(void)
{
	CHECK(tw("127.0.0.1", "65535"));
	CHECK(!tw("127.0.0.1", "65536"));
	CHECK(!tw("127.0.0.1", "65616"));
	return 0;
}
