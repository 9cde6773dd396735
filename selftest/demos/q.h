#include "demo.h"
#include <libmy/my_queue.h>
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
