#include "demo.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
int main(void)
{
	int l;
	char port[16];
#ifdef SND
	l = socket(AF_UNIX, SOCK_STREAM, 0);
	struct sockaddr_un sa = { .sun_family = AF_UNIX };
	strcpy(sa.sun_path, "./s.sock");
	CHECK(bind(l, (struct sockaddr *) &sa, sizeof sa) == 0 && listen(l, 1) == 0);
#else
	l = socket(AF_INET, SOCK_STREAM, 0);
	struct sockaddr_in sa = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) };
	socklen_t n = sizeof sa;
	CHECK(bind(l, (struct sockaddr *) &sa, sizeof sa) == 0 && listen(l, 1) == 0 && getsockname(l, (struct sockaddr *) &sa, &n) == 0);
	sprintf(port, "%u", ntohs(sa.sin_port));
#endif
	pid_t p = fork();
	if (p == 0) {
		close(l);
#ifdef SND
		struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init();
		fstrm_unix_writer_options_set_socket_path(o, "./s.sock");
		struct fstrm_writer *w = fstrm_unix_writer_init(o, NULL);
#else
		struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init();
		fstrm_tcp_writer_options_set_socket_address(o, "127.0.0.1");
		fstrm_tcp_writer_options_set_socket_port(o, port);
		struct fstrm_writer *w = fstrm_tcp_writer_init(o, NULL);
#endif
		if (fstrm_writer_open(w) != fstrm_res_success) _exit(3);
		char *b = calloc(1, 8000000);
		if (fstrm_writer_write(w, b, 8000000) != fstrm_res_success) _exit(4);
		if (fstrm_writer_close(w) != fstrm_res_success) _exit(5);
		fstrm_writer_destroy(&w);
		_exit(0);
	}
	int c = accept(l, NULL, NULL);
	static char buf[65536];
	CHECK(read(c, buf, sizeof buf) > 0);
#ifndef SND
	sleep(13);
#endif
	static const unsigned char acc[] = { 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 1 }, fin[] = { 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 5 };
	signal(SIGPIPE, SIG_IGN);
	CHECK(write(c, acc, 12) == 12);
	size_t got = 0;
	for (ssize_t k; got < 12 + 8000004 + 12 && (k = read(c, buf, sizeof buf)) > 0; got += k) {
#ifdef SND
		if (got < 100) sleep(16);
#endif
	}
	CHECK(got == 12 + 8000004 + 12, "%zu", got);
	CHECK(write(c, fin, 12) == 12);
	int st;
	CHECK(waitpid(p, &st, 0) == p);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "status %x", st);
	return 0;
}
