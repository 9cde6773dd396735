#include "demo.h"
#include <sys/socket.h>
#include <netinet/in.h>
static int lfd; static uint8_t got[65536]; static size_t ngot;
static void *peer(void *x)
{
	int fd = accept(lfd, NULL, NULL); ssize_t n; bb *b = calloc(1, sizeof *b); (void) x;
	ctl(b, C_ACCEPT, NULL); ctl(b, C_FINISH, NULL);
	if (write(fd, b->p, b->n) < 0) return NULL;
	while ((n = read(fd, got + ngot, sizeof got - ngot)) > 0) ngot += n;
	return NULL;
}
int main(void)
{
	struct sockaddr_in a = { .sin_family = AF_INET }; socklen_t l = sizeof a; pthread_t t; bb *e = calloc(1, sizeof *e); char port[16];
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	lfd = socket(AF_INET, SOCK_STREAM, 0);
	CHECK(bind(lfd, (void *) &a, sizeof a) == 0 && listen(lfd, 1) == 0 && getsockname(lfd, (void *) &a, &l) == 0);
	pthread_create(&t, NULL, peer, NULL);
	struct fstrm_tcp_writer_options *u = fstrm_tcp_writer_options_init();
	snprintf(port, sizeof port, "%d", ntohs(a.sin_port));
	fstrm_tcp_writer_options_set_socket_address(u, "127.0.0.1");
	fstrm_tcp_writer_options_set_socket_port(u, port);
	struct fstrm_writer *w = fstrm_tcp_writer_init(u, NULL);
	struct iovec v[200];
	for (int i = 0; i < 200; i++) { v[i].iov_base = "abcdefgh"; v[i].iov_len = 1 + i % 8; }
	CHECK(fstrm_writer_open(w) == fstrm_res_success);
	CHECK(fstrm_writer_writev(w, v, 200) == fstrm_res_success);
	CHECK(fstrm_writer_close(w) == fstrm_res_success);
	pthread_join(t, NULL);
	ctl(e, C_READY, NULL); ctl(e, C_START, NULL); for (int i = 0; i < 200; i++) frame(e, v[i].iov_base, v[i].iov_len); ctl(e, C_STOP, NULL);
	CHECK(ngot == e->n && !memcmp(got, e->p, e->n), "%zu bytes instead of %zu", ngot, e->n);
	return 0;
}
