#include "demo.h"
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
int main(void)
{
	signal(SIGPIPE, SIG_DFL);
	char path[100] = "./s.sock";
	int l = socket(AF_UNIX, SOCK_STREAM, 0);
	struct sockaddr_un sa = { .sun_family = AF_UNIX };
	strcpy(sa.sun_path, path);
	CHECK(bind(l, (struct sockaddr *) &sa, sizeof sa) == 0 && listen(l, 1) == 0);
	pid_t p = fork();
	if (p == 0) {
		close(l);
		struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init();
		fstrm_unix_writer_options_set_socket_path(o, path);
		struct fstrm_writer *w = fstrm_unix_writer_init(o, NULL);
		fstrm_unix_writer_options_destroy(&o);
		if (fstrm_writer_open(w) != fstrm_res_success) _exit(3);
		char *b = calloc(1, 8000000);
		fstrm_res r = fstrm_writer_write(w, b, 8000000);
		fstrm_writer_destroy(&w);
		_exit(r == fstrm_res_success ? 4 : 0);
	}
	int c = accept(l, NULL, NULL);
	char buf[65536];
	CHECK(read(c, buf, sizeof buf) > 0);
	static const unsigned char acc[] = { 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 1 };
	CHECK(write(c, acc, 12) == 12);
	for (int i = 0; i < 5; i++) CHECK(read(c, buf, sizeof buf) > 0);
	usleep(300000);
	close(c);
	close(l);
	int st;
	CHECK(waitpid(p, &st, 0) == p);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "status %x", st);
	return 0;
}
