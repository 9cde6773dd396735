// flags: -O1 -Wl,--wrap=read
#include "demo.h"
#include <sys/socket.h>
#include <sys/un.h>
/* Every other read() of the writer is interrupted by a signal. */
ssize_t __real_read(int, void *, size_t);
static unsigned calls;
ssize_t __wrap_read(int fd, void *p, size_t n)
{
	if (++calls % 2) { errno = EINTR; return -1; }
	return __real_read(fd, p, n > 2 ? 2 : n);
}
static int lfd;
static void *peer(void *x)
{
	int fd = accept(lfd, NULL, NULL); bb *b = calloc(1, sizeof *b); (void) x; char buf[100];
	ctl(b, C_ACCEPT, NULL); ctl(b, C_FINISH, NULL);
	if (write(fd, b->p, b->n) < 0) return NULL;
	while (recv(fd, buf, sizeof buf, 0) > 0);
	return NULL;
}
int main(void)
{
	struct sockaddr_un a = { .sun_family = AF_UNIX, .sun_path = "sock" }; pthread_t t;
	lfd = socket(AF_UNIX, SOCK_STREAM, 0);
	CHECK(bind(lfd, (void *) &a, sizeof a) == 0 && listen(lfd, 1) == 0);
	pthread_create(&t, NULL, peer, NULL);
	struct fstrm_unix_writer_options *u = fstrm_unix_writer_options_init();
	fstrm_unix_writer_options_set_socket_path(u, "sock");
	struct fstrm_writer *w = fstrm_unix_writer_init(u, NULL);
	CHECK(fstrm_writer_open(w) == fstrm_res_success);
	CHECK(fstrm_writer_write(w, "x", 1) == fstrm_res_success);
	CHECK(fstrm_writer_close(w) == fstrm_res_success);
	pthread_join(t, NULL);
	return 0;
}
