// flags: -O1 -Wl,--wrap=clock_gettime
#include <time.h>
#include <unistd.h>
int __real_clock_gettime(clockid_t, struct timespec *);
static volatile int armed, entered;
#include "iot.h"
/* the I/O thread is delayed on its way to sleep, so that destroy comes just before it sleeps */
int __wrap_clock_gettime(clockid_t id, struct timespec *t)
{
	int r = __real_clock_gettime(id, t);
	if (armed && armed++ < 3) { entered = 1; usleep(500000); }
	return r;
}
int main(void)
{
	for (int k = 0; k < 2; k++) {
		mem m = {0}; struct fstrm_iothr_options *o = fstrm_iothr_options_init();
		fstrm_iothr_options_set_flush_timeout(o, 1);
		struct fstrm_writer *w = mem_writer(&m, false, NULL);
		struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
		usleep(500000 + 1000 * k);
		entered = 0; armed = 1;
		while (!entered) usleep(1000);
		alarm(20);
		time_t t = time(NULL);
		fstrm_iothr_destroy(&io);
		armed = 0;
		CHECK(time(NULL) - t < 10, "destroy took long");
	}
	return 0;
}
