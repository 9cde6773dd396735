// flags: clang -O1 -fsanitize=thread
#include "iot.h"
static struct fstrm_iothr *io;
static void *get(void *x) { (void) x; for (int i = 0; i < 60; i++) { fstrm_iothr_get_input_queue(io); usleep(100); } return NULL; }
int main(void)
{
	mem m = {0}; pthread_t t[3]; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	fstrm_iothr_options_set_num_input_queues(o, 100);
	struct fstrm_writer *w = mem_writer(&m, false, NULL);
	io = fstrm_iothr_init(o, &w);
	for (int i = 0; i < 3; i++) pthread_create(&t[i], NULL, get, NULL);
	for (int i = 0; i < 3; i++) pthread_join(t[i], NULL);
	_exit(0);
}
