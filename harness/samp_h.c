/* Native integer sampler and generator driven through a scripted buffer. */
#include <string.h>
#include <stdint.h>
#include "inner.h"
static fpr B(double d) { fpr x; memcpy(&x, &d, 8); return x; }
static void tape(sampler_context *c, const uint8_t *t, int len)
{
	memset(c, 0, sizeof *c);
	memcpy(c->p.buf.d, t, len);
	for (uint32_t i = len, x = 12345; i < sizeof c->p.buf.d; i++) /* noise, so that a rejection ends soon */
		c->p.buf.d[i] = (uint8_t)((x = x * 1664525u + 1013904223u) >> 24);
}
int t_base(const uint8_t *t, int len, int *used)
{
	sampler_context c;
	tape(&c, t, len);
	int z = Zf(gaussian0_sampler)(&c.p);
	*used = memcmp(c.p.buf.d, t, len) ? 99999 : (int)c.p.ptr; /* refilled: past the script anyway */
	return z;
}
int t_sampler(const uint8_t *t, int len, double mu, double isigma, double smin, int *used)
{
	sampler_context c;
	tape(&c, t, len);
	c.sigma_min = B(smin);
	int z = Zf(sampler)(&c, B(mu), B(isigma));
	*used = memcmp(c.p.buf.d, t, len) ? 99999 : (int)c.p.ptr; /* refilled: past the script anyway */
	return z;
}
/* plan: w = 9-byte read as the base sampler does, q = 8 bytes, b = 1 byte, 1..9 and A.. = get_bytes of that many / 64*k bytes */
int t_prng(const uint8_t *seed, int slen, uint64_t ctr, int setctr, const char *plan, uint8_t *out)
{
	prng p;
	inner_shake256_context sc;
	inner_shake256_init(&sc);
	inner_shake256_inject(&sc, seed, slen);
	inner_shake256_flip(&sc);
	memset(&p, 0xA5, sizeof p);
	Zf(prng_init)(&p, &sc);
	if (setctr) {
		memcpy(p.state.d + 48, &ctr, 8);
		Zf(prng_refill)(&p);
	}
	uint8_t *o = out;
	for (; *plan; plan++) {
		if (*plan == 'w' || *plan == 'q') {
			uint64_t v = prng_get_u64(&p);
			for (int i = 0; i < 8; i++)
				*o++ = (uint8_t)(v >> (8 * i));
		}
		if (*plan == 'w' || *plan == 'b')
			*o++ = (uint8_t)prng_get_u8(&p);
		if (*plan >= '1' && *plan <= '9') {
			Zf(prng_get_bytes)(&p, o, *plan - '0');
			o += *plan - '0';
		}
		if (*plan >= 'A' && *plan <= 'Z') {
			Zf(prng_get_bytes)(&p, o, 64 * (*plan - 'A' + 1));
			o += 64 * (*plan - 'A' + 1);
		}
	}
	return (int)(o - out);
}
