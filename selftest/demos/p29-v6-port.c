#include "demo.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <fcntl.h>
#include <dirent.h>
#include <netinet/in.h>
static struct fstrm_writer *tw(const char *a, const char *p)
{
	struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init();
	fstrm_tcp_writer_options_set_socket_address(o, a);
	fstrm_tcp_writer_options_set_socket_port(o, p);
	struct fstrm_writer *w = fstrm_tcp_writer_init(o, NULL);
	fstrm_tcp_writer_options_destroy(&o);
	return w;
}
#include <dlfcn.h>
static int got = -1;
int connect(int fd, const struct sockaddr *a, socklen_t n)
{
	got = ntohs(((const struct sockaddr_in6 *)a)->sin6_port);
	errno = ECONNREFUSED;
	return -1;
}
int socket(int d, int t, int p) { return open("/dev/null", O_RDONLY); }
int main(void)
{
	static const char *p[] = { "1", "80", "32767", "32768", "65535" };
	for (int i = 0; i < 5; i++) {
		struct fstrm_writer *w = tw("::1", p[i]);
		CHECK(w && fstrm_writer_open(w) != fstrm_res_success && got == atoi(p[i]), "port %s: connects to %d", p[i], got);
	}
	return 0;
}
