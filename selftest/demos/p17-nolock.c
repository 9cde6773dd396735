// flags: -O1 -Wl,--wrap=pthread_mutex_lock
#include "iot.h"
/* a second thread asks for a queue just before the first one gets the lock */
int __real_pthread_mutex_lock(pthread_mutex_t *);
static struct fstrm_iothr *io; static int armed; static struct fstrm_iothr_queue *a, *b;
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (armed) { armed = 0; b = fstrm_iothr_get_input_queue(io); }
	return __real_pthread_mutex_lock(m);
}
int main(void)
{
	mem m = {0}; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	fstrm_iothr_options_set_num_input_queues(o, 2);
	struct fstrm_writer *w = mem_writer(&m, false, NULL);
	io = fstrm_iothr_init(o, &w);
	struct fstrm_iothr_queue *q0 = fstrm_iothr_get_input_queue_idx(io, 0), *q1 = fstrm_iothr_get_input_queue_idx(io, 1);
	CHECK(fstrm_iothr_get_input_queue(io) == q0);
	sleep(1);				/* the I/O thread waits: no locking by it now */
	armed = 1;
	a = fstrm_iothr_get_input_queue(io);
	CHECK((a == q1 && b == NULL) || (b == q1 && a == NULL), "%p %p instead of %p and none", (void *) a, (void *) b, (void *) q1);
	fstrm_iothr_destroy(&io);
	return 0;
}
