#include "demo.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <fcntl.h>
#include <dirent.h>
#include <netinet/in.h>
int main(void)
{
	struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init();
	fstrm_unix_writer_options_set_socket_path(o, "sock");
	struct fstrm_writer *w = fstrm_unix_writer_init(o, NULL);
	CHECK(fstrm_writer_open(w) != fstrm_res_success);
	struct sockaddr_un a = { .sun_family = AF_UNIX, .sun_path = "sock" };
	int fd = socket(AF_UNIX, SOCK_STREAM, 0);
	CHECK(!bind(fd, (void *)&a, sizeof a) && !listen(fd, 5));
	pid_t p = fork();
	if (!p) {
		alarm(10);
		int c = accept(fd, NULL, NULL);
		static const uint8_t acc[] = { 0,0,0,0, 0,0,0,4, 0,0,0,1 };
		(void)!write(c, acc, sizeof acc);
		char b[100];
		while (read(c, b, sizeof b) > 0);
		_exit(0);
	}
	close(fd);
	CHECK(fstrm_writer_open(w) == fstrm_res_success, "the second open fails although the peer is there");
	return 0;
}
