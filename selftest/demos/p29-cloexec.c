#include "demo.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <fcntl.h>
#include <dirent.h>
#include <netinet/in.h>
static struct fstrm_writer *tw(const char *a, const char *p)
{
	struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init();
	fstrm_tcp_writer_options_set_socket_address(o, a);
	fstrm_tcp_writer_options_set_socket_port(o, p);
	struct fstrm_writer *w = fstrm_tcp_writer_init(o, NULL);
	fstrm_tcp_writer_options_destroy(&o);
	return w;
}
static int lfd, port;
static void *serve(void *u)
{
	int fd = accept(lfd, NULL, NULL);
	static const uint8_t acc[] = { 0,0,0,0, 0,0,0,4, 0,0,0,1 };
	(void)!write(fd, acc, sizeof acc);
	char b[1000];
	while (read(fd, b, sizeof b) > 0);
	return NULL;
}
int main(void)
{
	struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) };
	socklen_t l = sizeof a;
	lfd = socket(AF_INET, SOCK_STREAM, 0);
	CHECK(!bind(lfd, (void *)&a, l) && !listen(lfd, 5) && !getsockname(lfd, (void *)&a, &l));
	char p[20];
	sprintf(p, "%u", ntohs(a.sin_port));
	pthread_t t;
	pthread_create(&t, NULL, serve, NULL);
	bool had[100];
	for (int i = 0; i < 100; i++) had[i] = fcntl(i, F_GETFD) >= 0;
	struct fstrm_writer *w = tw("127.0.0.1", p);
	CHECK(fstrm_writer_open(w) == fstrm_res_success);
	for (int i = 0; i < 100; i++) if (!had[i]) {
		int f = fcntl(i, F_GETFD);
		struct sockaddr_in q;
		socklen_t ql = sizeof q;
		if (f < 0 || getpeername(i, (void *)&q, &ql) || q.sin_port != a.sin_port) continue;
		CHECK(f & FD_CLOEXEC, "descriptor %d is inherited", i);
	}
	return 0;
}
