/* Independent reference implementation of the Frame Streams encoding. */
#ifndef H_REF_H
#define H_REF_H
#include "common.h"
enum { T_ACCEPT = 1, T_START = 2, T_STOP = 3, T_READY = 4, T_FINISH = 5 };
#define REF_CTL_MAX 512
#define REF_CT_MAX 256
#define REF_MAXCT 140
typedef struct { const uint8_t *p; size_t n; } rbuf;
typedef struct { uint32_t type; int nct; rbuf ct[REF_MAXCT]; } rframe;

/* raw encoding of everything in f (no rules applied) */
static inline void ref_enc_payload(bb *b, const rframe *f)
{
	bb_be32(b, f->type);
	for (int i = 0; i < f->nct; i++) {
		bb_be32(b, 1);
		bb_be32(b, f->ct[i].n);
		bb_add(b, f->ct[i].p, f->ct[i].n);
	}
}
static inline void ref_enc(bb *b, const rframe *f)
{
	bb t = {0};
	ref_enc_payload(&t, f);
	bb_be32(b, 0);
	bb_be32(b, t.n);
	bb_add(b, t.p, t.n);
	bb_free(&t);
}
static inline void ref_ctl(bb *b, uint32_t type) { rframe f = { .type = type }; ref_enc(b, &f); }
static inline void ref_ctl1(bb *b, uint32_t type, rbuf ct)
{
	rframe f = { .type = type, .nct = 1 };
	f.ct[0] = ct;
	ref_enc(b, &f);
}
static inline void ref_data(bb *b, const void *p, size_t n) { bb_be32(b, n); bb_add(b, p, n); }

enum { RD_OK, RD_UNKNOWN, RD_BAD };
/* decode the payload of a control frame (without escape and length) */
static inline int ref_dec(const uint8_t *p, size_t n, rframe *f)
{
	memset(f, 0, sizeof *f);
	if (n > REF_CTL_MAX || n < 4) return RD_BAD;
	f->type = get32(p);
	p += 4; n -= 4;
	if (f->type < 1 || f->type > 5) return RD_UNKNOWN;
	while (n) {
		if (n < 8 || get32(p) != 1) return RD_BAD;
		size_t l = get32(p + 4);
		p += 8; n -= 8;
		if (l > n || l > REF_CT_MAX) return RD_BAD;
		f->ct[f->nct].p = p;
		f->ct[f->nct++].n = l;
		p += l; n -= l;
	}
	if (f->type == T_START && f->nct > 1) return RD_BAD;
	if ((f->type == T_STOP || f->type == T_FINISH) && f->nct) return RD_BAD;
	return RD_OK;
}
static inline bool rb_eq(rbuf a, rbuf b) { return a.n == b.n && (a.n == 0 || !memcmp(a.p, b.p, a.n)); }
static inline bool ref_has(const rframe *f, rbuf c)
{
	for (int i = 0; i < f->nct; i++) if (rb_eq(f->ct[i], c)) return true;
	return false;
}
/* documented matching rule */
static inline bool ref_match(const rframe *f, rbuf c)
{
	if (f->type == T_STOP || f->type == T_FINISH) return false;
	if (f->nct == 0) return true;
	return c.p != NULL && ref_has(f, c);
}
#endif
