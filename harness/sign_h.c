/* The native signing functions with the lattice sampler and the system randomness replaced by enumerated answers (falcon_inner_sign_dyn and randombytes are overridden at link time). */
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include "inner.h"
#include "api.h"
static const int16_t *cand; /* pairs (s1, s2) of 512 coefficients each */
static int ncand;
static jmp_buf off;
static const uint8_t *rnd;
static size_t rlen, rpos;
int s_calls, s_over;
int8_t s_f[512], s_g[512], s_F[512], s_G[512];
uint16_t s_hm[512];
uint8_t s_rng[64];
/* every attempt must see the same key, point and a running generator; the first is recorded, later ones are compared */
int s_same;
void Zf(sign_dyn)(int16_t *sig, inner_shake256_context *rng, const int8_t *restrict f, const int8_t *restrict g, const int8_t *restrict F, const int8_t *restrict G,
	const uint16_t *hm, unsigned logn, uint8_t *tmp)
{
	int i = s_calls++;
	if (logn != 9) {
		s_over |= 4;
		return;
	}
	if (i == 0) {
		memcpy(s_f, f, 512), memcpy(s_g, g, 512), memcpy(s_F, F, 512), memcpy(s_G, G, 512), memcpy(s_hm, hm, 1024);
		inner_shake256_extract(rng, s_rng, 64);
	} else {
		uint8_t b[64];
		inner_shake256_extract(rng, b, 64);
		if (memcmp(s_f, f, 512) || memcmp(s_g, g, 512) || memcmp(s_F, F, 512) || memcmp(s_G, G, 512) || memcmp(s_hm, hm, 1024) || !memcmp(b, s_rng, 64))
			s_same = 0;
	}
	if (i >= ncand)
		i = ncand - 1, s_over |= 1;
	if (s_calls > ncand + 3) /* would never end */
		longjmp(off, 1);
	memset(tmp, 0x5A, 72 * 512);
	memcpy(sig, cand + 1024 * i + 512, 1024);
	memcpy(tmp, cand + 1024 * i, 1024);
}
int randombytes(unsigned char *x, unsigned long long n)
{
	if (n > rlen - rpos) {
		s_over |= 2;
		memset(x, 0, n);
		return 0;
	}
	memcpy(x, rnd + rpos, n);
	rpos += n;
	return 0;
}
/* result: return value of the signer; *used random bytes read; sm is followed by 64 guard bytes */
int s_sign(int scheme, uint8_t *sm, unsigned long long cap, unsigned long long *smlen, const uint8_t *m, unsigned long long mlen, const uint8_t *sk,
	const int16_t *c, int nc, const uint8_t *r, int rl, long *used)
{
	int x;
	cand = c, ncand = nc, rnd = r, rlen = rl, rpos = 0, s_calls = s_over = 0, s_same = 1;
	memset(sm, 0xC3, cap + 64);
	if (setjmp(off))
		return -99;
	x = scheme == 0 ? crypto_sign(sm, smlen, m, mlen, sk) : scheme == 1 ? zknox_crypto_sign(sm, smlen, m, mlen, sk) : zknox_crypto_sign_epervier(sm, smlen, m, mlen, sk);
	*used = (long)rpos;
	for (int i = 0; i < 64; i++)
		if (sm[cap + i] != 0xC3)
			s_over |= 16;
	return x;
}
/* hint and invertibility of one polynomial, on poisoned scratch */
int s_hint(const int16_t *s2, int logn, int *hint, int *zeros)
{
	static uint64_t tmp[1024];
	int16_t v[1024];
	memcpy(v, s2, sizeof(int16_t) << logn);
	memset(tmp, 0xA7, sizeof tmp);
	int r = Zf(is_invertible)(v, logn, (uint8_t *)tmp);
	memset(tmp, 0xA7, sizeof tmp);
	*zeros = Zf(count_nttzero)(v, logn, (uint8_t *)tmp);
	*hint = r && logn <= 9 ? Zf(hint_epervier)(v, logn) : -1;
	return r | (memcmp(v, s2, sizeof(int16_t) << logn) ? 2 : 0);
}
