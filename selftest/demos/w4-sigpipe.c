#include "iot.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
int main(void)
{
	CHECK(mkfifo("pipe", 0600) == 0);
	pid_t p = fork();
	if (p == 0) {
		signal(SIGPIPE, SIG_DFL);
		struct fstrm_file_options *o = fstrm_file_options_init();
		fstrm_file_options_set_file_path(o, "pipe");
		struct fstrm_writer *w = fstrm_file_writer_init(o, NULL);
		fstrm_file_options_destroy(&o);
		struct fstrm_iothr *io = fstrm_iothr_init(NULL, &w);
		struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
		char big[5000] = {0};
		for (int i = 0; i < 3000; i++) { sub(io, q, big, sizeof big); usleep(1000); }
		_exit(0);
	}
	int fd = open("pipe", O_RDONLY);
	char b[1000];
	for (int i = 0; i < 50; i++) CHECK(read(fd, b, sizeof b) > 0);
	close(fd);
	int st;
	CHECK(waitpid(p, &st, 0) == p);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "status %x", st);
	return 0;
}
