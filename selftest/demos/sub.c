/* sub ADDRESS PORT|- QUEUES [LENGTH]: submits through an I/O thread.  stdin: "s K N [QUEUE]" submits frames K..K+N-1, "q" destroys the I/O thread and exits. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fstrm.h>
int main(int argc, char **argv)
{
	struct fstrm_writer_options *wo = fstrm_writer_options_init();
	fstrm_writer_options_add_content_type(wo, "t", 1);
	struct fstrm_writer *w;
	if (argv[2][0] == '-') {
		struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init();
		fstrm_unix_writer_options_set_socket_path(o, argv[1]);
		w = fstrm_unix_writer_init(o, wo);
		fstrm_unix_writer_options_destroy(&o);
	} else {
		struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init();
		fstrm_tcp_writer_options_set_socket_address(o, argv[1]);
		fstrm_tcp_writer_options_set_socket_port(o, argv[2]);
		w = fstrm_tcp_writer_init(o, wo);
		fstrm_tcp_writer_options_destroy(&o);
	}
	unsigned nq = atoi(argv[3]), len = argc > 4 ? atoi(argv[4]) : 0;
	unsigned hint = getenv("HINT") ? atoi(getenv("HINT")) : 8192;
	struct fstrm_iothr_options *io = fstrm_iothr_options_init();
	fstrm_iothr_options_set_num_input_queues(io, nq);
	fstrm_iothr_options_set_flush_timeout(io, 1);
	fstrm_iothr_options_set_reopen_interval(io, 1);
	fstrm_iothr_options_set_input_queue_size(io, 4096);
	fstrm_iothr_options_set_queue_notify_threshold(io, 1);
	fstrm_iothr_options_set_buffer_hint(io, hint);
	struct fstrm_iothr *t = fstrm_iothr_init(io, &w);
	fstrm_iothr_options_destroy(&io);
	fstrm_writer_options_destroy(&wo);
	char line[100];
	while (fgets(line, sizeof line, stdin)) {
		unsigned k, n, q = 0;
		if (line[0] == 'q')
			break;
		if (sscanf(line, "s %u %u %u", &k, &n, &q) < 2)
			continue;
		for (unsigned i = k; i < k + n; i++) {
			char *p = calloc(1, len + 32);
			size_t l = sprintf(p, "frame %u", i);
			if (l < len) { memset(p + l, '.', len - l); l = len; }
			while (fstrm_iothr_submit(t, fstrm_iothr_get_input_queue_idx(t, q), p, l, fstrm_free_wrapper, NULL) == fstrm_res_again)
				usleep(1000);
		}
		puts("ok");
		fflush(stdout);
	}
	fstrm_iothr_destroy(&t);
	return 0;
}
