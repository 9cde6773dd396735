// flags: -O1 -Ilibmy
#include "demo.h"
#include "libmy/my_queue.h"
extern const struct my_queue_ops my_queue_mutex_ops;
/* a queue of 131072 elements: filled to the last, emptied, filled again */
int main(void)
{
	for (unsigned size = 2; size <= 1 << 17; size <<= 1) {
		struct my_queue *q = my_queue_mutex_ops.init(size, sizeof(uint32_t));
		CHECK(q != NULL);
		uint32_t in = 0, out = 0, e;
		for (int round = 0; round < 3; round++) {
			while (in - out < 2 * size && my_queue_mutex_ops.insert(q, &in, NULL)) in++;
			CHECK(in - out == size - 1, "a queue of size %u holds %u elements", size, in - out);
			for (unsigned i = 0; i < size - 1 - round % 2 * (size / 2); i++) {
				CHECK(my_queue_mutex_ops.remove(q, &e, NULL));
				CHECK(e == out, "size %u: element %u instead of %u", size, e, out);
				out++;
			}
		}
		my_queue_mutex_ops.destroy(&q);
	}
	return 0;
}
