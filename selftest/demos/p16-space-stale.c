// flags: -O1 -Wl,--wrap=pthread_mutex_unlock
#include "q.h"
/* right after a producer has released the lock two elements are removed: the space it reports must be that of its insertion */
int __real_pthread_mutex_unlock(pthread_mutex_t *);
static struct my_queue *q; static int armed;
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	int r = __real_pthread_mutex_unlock(m);
	if (armed) { armed = 0; int v; my_queue_mutex_ops.remove(q, &v, NULL); my_queue_mutex_ops.remove(q, &v, NULL); }
	return r;
}
int main(void)
{
	q = my_queue_mutex_ops.init(8, sizeof(int));
	int v = 1; unsigned sp;
	for (int i = 0; i < 5; i++) CHECK(my_queue_mutex_ops.insert(q, &v, &sp) && sp == 6u - i);
	armed = 1;
	CHECK(my_queue_mutex_ops.insert(q, &v, &sp) && sp == 1, "space %u", sp);
	return 0;
}
