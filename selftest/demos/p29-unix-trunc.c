#include "demo.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <fcntl.h>
#include <dirent.h>
#include <netinet/in.h>
int main(void)
{
	char path[200];
	memset(path, 'p', sizeof path);
	for (int l = 107; l < 112; l++) {
		struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init();
		path[l] = 0;
		fstrm_unix_writer_options_set_socket_path(o, path);
		path[l] = 'p';
		struct fstrm_writer *w = fstrm_unix_writer_init(o, NULL);
		CHECK(l > 107 || w, "refused at %d", l);
		if (l > 107 && w) {	/* then it must not reach the socket of the shorter name */
			struct sockaddr_un a = { .sun_family = AF_UNIX };
			memset(a.sun_path, 'p', 107);
			int fd = socket(AF_UNIX, SOCK_STREAM, 0);
			CHECK(!bind(fd, (void *)&a, sizeof a) && !listen(fd, 5));
			CHECK(fork() || (alarm(3), fstrm_writer_open(w), _exit(0), 0));
			fcntl(fd, F_SETFL, O_NONBLOCK);
			sleep(1);
			CHECK(accept(fd, NULL, NULL) < 0, "a path of %d bytes reaches the socket of 107 bytes", l);
		}
	}
	return 0;
}
