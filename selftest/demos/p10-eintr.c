// flags: -O1 -Wl,--wrap=sendmsg
#include "demo.h"
#include <sys/socket.h>
#include <sys/un.h>
/* Every sendmsg() first accepts a few bytes, and is then interrupted by a signal once. */
ssize_t __real_sendmsg(int, const struct msghdr *, int);
static unsigned calls;
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl)
{
	if (++calls % 2 == 0) { errno = EINTR; return -1; }
	struct iovec v = m->msg_iov[0];
	if (v.iov_len > 3) v.iov_len = 3;
	struct msghdr c = *m; c.msg_iov = &v; c.msg_iovlen = 1;
	return __real_sendmsg(fd, &c, fl);
}
static int lfd; static uint8_t got[4096]; static size_t ngot;
static void *peer(void *x)
{
	int fd = accept(lfd, NULL, NULL); ssize_t n; bb *b = calloc(1, sizeof *b); (void) x;
	ctl(b, C_ACCEPT, NULL); ctl(b, C_FINISH, NULL);
	if (write(fd, b->p, b->n) < 0) return NULL;
	while ((n = read(fd, got + ngot, sizeof got - ngot)) > 0) ngot += n;
	return NULL;
}
int main(void)
{
	struct sockaddr_un a = { .sun_family = AF_UNIX, .sun_path = "sock" }; pthread_t t; bb *e = calloc(1, sizeof *e);
	lfd = socket(AF_UNIX, SOCK_STREAM, 0);
	CHECK(bind(lfd, (void *) &a, sizeof a) == 0 && listen(lfd, 1) == 0);
	pthread_create(&t, NULL, peer, NULL);
	struct fstrm_unix_writer_options *u = fstrm_unix_writer_options_init();
	fstrm_unix_writer_options_set_socket_path(u, "sock");
	struct fstrm_writer *w = fstrm_unix_writer_init(u, NULL);
	struct iovec v[3] = { { "one", 3 }, { "twotwo", 6 }, { "threethreethree", 15 } };
	CHECK(fstrm_writer_open(w) == fstrm_res_success);
	CHECK(fstrm_writer_writev(w, v, 3) == fstrm_res_success);
	CHECK(fstrm_writer_close(w) == fstrm_res_success);
	pthread_join(t, NULL);
	ctl(e, C_READY, NULL); ctl(e, C_START, NULL); for (int i = 0; i < 3; i++) frame(e, v[i].iov_base, v[i].iov_len); ctl(e, C_STOP, NULL);
	CHECK(ngot == e->n && !memcmp(got, e->p, e->n), "%zu bytes instead of %zu", ngot, e->n);
	return 0;
}
