#include "demo.h"
#include <malloc.h>
int main(void)
{
	struct fstrm_control *c = fstrm_control_init();
	size_t first = 0;
	for (int i = 0; i < 20000; i++) {
		fstrm_control_reset(c);
		CHECK(fstrm_control_set_type(c, FSTRM_CONTROL_READY) == fstrm_res_success);
		for (int j = 0; j < 4; j++) CHECK(fstrm_control_add_field_content_type(c, (uint8_t *) "abcd", 4) == fstrm_res_success);
		if (i == 100) first = mallinfo2().uordblks;
	}
	CHECK(mallinfo2().uordblks < first + 100000, "%zu bytes in use, %zu at first", mallinfo2().uordblks, first);
	fstrm_control_destroy(&c);
	return 0;
}
