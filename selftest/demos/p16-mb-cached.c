#include "q.h"
int main(void)
{
	static const struct my_queue_ops *const ops[] = { &my_queue_mb_ops, &my_queue_mutex_ops };
	for (int k = 0; k < 2; k++)
		for (unsigned sz = 2; sz <= 64; sz *= 2) {
			struct my_queue *q = ops[k]->init(sz, sizeof(int)); unsigned sp, c; int v;
			for (unsigned i = 0; i < sz - 1; i++) { v = i; CHECK(ops[k]->insert(q, &v, &sp)); CHECK(sp == sz - 2 - i, "space %u", sp); }
			CHECK(!ops[k]->insert(q, &v, &sp));
			for (unsigned i = 0; i < sz - 1; i++) { CHECK(ops[k]->remove(q, &v, &c), "size %u element %u", sz, i); CHECK(v == (int) i && c == sz - 2 - i); }
			CHECK(!ops[k]->remove(q, &v, &c));
			ops[k]->destroy(&q);
		}
	return 0;
}
