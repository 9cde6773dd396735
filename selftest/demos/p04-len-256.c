#include "demo.h"
int main(void)
{
	for (unsigned len = 250; len <= 260; len++) {
		bb *b = calloc(1, sizeof *b); uint8_t t[300]; memset(t, 't', sizeof t);
		u32(b, C_START); u32(b, 1); frame(b, t, len);
		struct fstrm_control *c = fstrm_control_init();
		fstrm_res r = fstrm_control_decode(c, b->p, b->n, 0);
		CHECK((r == fstrm_res_success) == (len <= 256), "a content type of %u bytes", len);
		fstrm_control_destroy(&c);
	}
	return 0;
}
