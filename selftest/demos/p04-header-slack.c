#include "demo.h"
int main(void)
{
	for (int d = -8; d <= 8; d++) {
		bb *b = calloc(1, sizeof *b);
		u32(b, 0); u32(b, 4 + 8 + 3 + d); u32(b, C_START); u32(b, 1); frame(b, "abc", 3);
		struct fstrm_control *c = fstrm_control_init();
		fstrm_res r = fstrm_control_decode(c, b->p, b->n, FSTRM_CONTROL_FLAG_WITH_HEADER);
		CHECK((r == fstrm_res_success) == (d == 0), "a header length off by %d", d);
		fstrm_control_destroy(&c);
	}
	return 0;
}
