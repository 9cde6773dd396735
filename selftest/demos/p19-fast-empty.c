// flags: clang -O1 -fsanitize=thread
#include "q.h"
static struct my_queue *q;
static void *prod(void *x) { (void) x; for (int i = 0; i < 3000; i++) while (!my_queue_mutex_ops.insert(q, &i, NULL)) usleep(10); return NULL; }
int main(void)
{
	pthread_t t; int v;
	q = my_queue_mutex_ops.init(8, sizeof(int));
	pthread_create(&t, NULL, prod, NULL);
	for (int i = 0; i < 3000; i++) { while (!my_queue_mutex_ops.remove(q, &v, NULL)) usleep(10); CHECK(v == i); }
	pthread_join(t, NULL);
	return 0;
}
