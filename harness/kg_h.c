/* Native key generation on a scripted stream: the hash output is replaced by a tape (falcon_inner_i_shake256_extract is overridden at link time). */
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include "inner.h"
static const uint8_t *tape;
static size_t tlen, tpos;
static jmp_buf off;
void Zf(i_shake256_extract)(inner_shake256_context *sc, uint8_t *out, size_t len)
{
	if (len > tlen - tpos)
		longjmp(off, 1);
	memcpy(out, tape + tpos, len);
	tpos += len;
}
/* returns bytes read, or -1 when the tape ended first; -2 when memory outside the buffers was written */
long k_gen(const uint8_t *t, size_t n, int logn, int what, int fill, int8_t *f, int8_t *g, int8_t *F, int8_t *G, uint16_t *h)
{
	static const size_t need[] = {0, FALCON_KEYGEN_TEMP_1, FALCON_KEYGEN_TEMP_2, FALCON_KEYGEN_TEMP_3, FALCON_KEYGEN_TEMP_4, FALCON_KEYGEN_TEMP_5, FALCON_KEYGEN_TEMP_6,
		FALCON_KEYGEN_TEMP_7, FALCON_KEYGEN_TEMP_8, FALCON_KEYGEN_TEMP_9, FALCON_KEYGEN_TEMP_10};
	static uint64_t tmp[FALCON_KEYGEN_TEMP_10 / 8 + 64];
	inner_shake256_context rng;
	memset(tmp, fill, sizeof tmp);
	memset(&rng, fill, sizeof rng);
	tape = t, tlen = n, tpos = 0;
	if (setjmp(off))
		return -1;
	Zf(keygen)(&rng, f, g, F, what & 1 ? G : NULL, what & 2 ? h : NULL, logn, (uint8_t *)tmp);
	for (size_t i = need[logn]; i < sizeof tmp; i++)
		if (((uint8_t *)tmp)[i] != (uint8_t)fill)
			return -2;
	return (long)tpos;
}
