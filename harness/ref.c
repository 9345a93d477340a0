#include "ref.h"
#include <string.h>
#include <stdlib.h>

static uint64_t rol(uint64_t x, int n) { return n ? (x << n) | (x >> (64 - n)) : x; }

void ref_keccakf(uint64_t A[25])
{
	/* textbook: rho offsets and iota constants are generated, not tabulated */
	uint8_t R = 1;
	for (int round = 0; round < 24; round++) {
		uint64_t C[5], D, B[25];
		for (int x = 0; x < 5; x++)
			C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
		for (int x = 0; x < 5; x++) {
			D = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
			for (int y = 0; y < 5; y++)
				A[x + 5 * y] ^= D;
		}
		int x = 1, y = 0;
		B[0] = A[0];
		for (int t = 0; t < 24; t++) {
			int r = ((t + 1) * (t + 2) / 2) % 64;
			int nx = y, ny = (2 * x + 3 * y) % 5;
			B[nx + 5 * ny] = rol(A[x + 5 * y], r);
			x = nx;
			y = ny;
		}
		for (int yy = 0; yy < 5; yy++)
			for (int xx = 0; xx < 5; xx++)
				A[xx + 5 * yy] = B[xx + 5 * yy] ^ (~B[(xx + 1) % 5 + 5 * yy] & B[(xx + 2) % 5 + 5 * yy]);
		for (int j = 0; j <= 6; j++) {
			if (R & 1)
				A[0] ^= (uint64_t)1 << ((1 << j) - 1);
			R = (R & 0x80) ? (uint8_t)((R << 1) ^ 0x71) : (uint8_t)(R << 1);
		}
	}
}

typedef struct { uint64_t A[25]; size_t rate, pos; } sponge;

static void sp_start(sponge *s, const uint8_t *in, size_t len, int pad, size_t rate)
{
	memset(s, 0, sizeof *s);
	s->rate = rate;
	size_t p = 0;
	for (size_t i = 0; i < len; i++) {
		s->A[p >> 3] ^= (uint64_t)in[i] << (8 * (p & 7));
		if (++p == rate) {
			ref_keccakf(s->A);
			p = 0;
		}
	}
	s->A[p >> 3] ^= (uint64_t)pad << (8 * (p & 7));
	s->A[(rate - 1) >> 3] ^= (uint64_t)0x80 << (8 * ((rate - 1) & 7));
	s->pos = rate;
}
static void sp_read(sponge *s, uint8_t *out, size_t n)
{
	while (n--) {
		if (s->pos == s->rate) {
			ref_keccakf(s->A);
			s->pos = 0;
		}
		*out++ = (uint8_t)(s->A[s->pos >> 3] >> (8 * (s->pos & 7)));
		s->pos++;
	}
}

void ref_sponge(const uint8_t *in, size_t len, int pad, size_t rate, uint8_t *out, size_t outlen)
{
	sponge s;
	sp_start(&s, in, len, pad, rate);
	sp_read(&s, out, outlen);
}
void ref_shake256(const uint8_t *in, size_t len, uint8_t *out, size_t outlen) { ref_sponge(in, len, 0x1F, 136, out, outlen); }
void ref_keccak256(const uint8_t *in, size_t len, uint8_t out[32]) { ref_sponge(in, len, 0x01, 136, out, 32); }

typedef struct { uint8_t st[40]; uint8_t blk[32]; size_t pos; uint64_t ctr; } kprng;
static void kp_start(kprng *k, const uint8_t *in, size_t len)
{
	ref_keccak256(in, len, k->st);
	k->pos = 32;
	k->ctr = 0;
}
static void kp_read(kprng *k, uint8_t *out, size_t n)
{
	while (n--) {
		if (k->pos == 32) {
			for (int i = 0; i < 8; i++)
				k->st[32 + i] = (uint8_t)(k->ctr >> (8 * (7 - i)));
			k->ctr++;
			ref_keccak256(k->st, 40, k->blk);
			k->pos = 0;
		}
		*out++ = k->blk[k->pos++];
	}
}
void ref_kprng(const uint8_t *in, size_t len, uint8_t *out, size_t outlen)
{
	kprng k;
	kp_start(&k, in, len);
	kp_read(&k, out, outlen);
}

void ref_h2p(int xof, const uint8_t *in, size_t len, uint16_t *c, unsigned n)
{
	sponge s;
	kprng k;
	if (xof)
		kp_start(&k, in, len);
	else
		sp_start(&s, in, len, 0x1F, 136);
	unsigned i = 0;
	while (i < n) {
		uint8_t b[2];
		if (xof)
			kp_read(&k, b, 2);
		else
			sp_read(&s, b, 2);
		uint32_t w = b[0] * 256u + b[1];
		if (w < 5 * RQ)
			c[i++] = (uint16_t)(w % RQ);
	}
}

static int32_t md(int64_t x)
{
	x %= RQ;
	return (int32_t)(x < 0 ? x + RQ : x);
}
static int32_t pw(int32_t b, int e)
{
	int64_t r = 1, x = b;
	for (; e; e >>= 1) {
		if (e & 1)
			r = r * x % RQ;
		x = x * x % RQ;
	}
	return (int32_t)r;
}

void ref_mul_school(const int32_t *a, const int32_t *b, int32_t *out, unsigned n)
{
	int64_t t[2048];
	memset(t, 0, sizeof t);
	for (unsigned i = 0; i < n; i++) {
		if (!a[i])
			continue;
		for (unsigned j = 0; j < n; j++) {
			if (i + j < n)
				t[i + j] += (int64_t)md(a[i]) * md(b[j]);
			else
				t[i + j - n] -= (int64_t)md(a[i]) * md(b[j]);
		}
	}
	for (unsigned i = 0; i < n; i++)
		out[i] = md(t[i]);
}

/* NTT by recursive definition on the factor tree X^m - r = (X^{m/2}-s)(X^{m/2}+s) */
static int32_t zeta_cache[11][2048], izeta_cache[11][2048];
static unsigned brv(unsigned x, unsigned bits)
{
	unsigned r = 0;
	for (unsigned i = 0; i < bits; i++)
		r |= ((x >> i) & 1) << (bits - 1 - i);
	return r;
}
static int lg(unsigned n)
{
	int l = 0;
	while ((1u << l) < n)
		l++;
	return l;
}
static const int32_t *zetas(unsigned n)
{
	int l = lg(n);
	if (!zeta_cache[l][1]) {
		int32_t psi = pw(7, 2048 / (2 * (int)n)); /* 7 has order 2048 mod 12289 */
		for (unsigned i = 0; i < n; i++)
			zeta_cache[l][i] = pw(psi, (int)brv(i, l));
		for (unsigned i = 0; i < n; i++)
			izeta_cache[l][i] = pw(zeta_cache[l][i], RQ - 2);
	}
	return zeta_cache[l];
}
void ref_ntt(int32_t *a, unsigned n)
{
	const int32_t *z = zetas(n);
	for (unsigned i = 0; i < n; i++)
		a[i] = md(a[i]);
	unsigned t = n;
	for (unsigned m = 1; m < n; m *= 2) {
		t /= 2;
		for (unsigned i = 0; i < m; i++)
			for (unsigned j = 2 * i * t; j < 2 * i * t + t; j++) {
				int32_t u = a[j], v = md((int64_t)a[j + t] * z[m + i]);
				a[j] = md(u + v);
				a[j + t] = md(u - v);
			}
	}
}
void ref_intt(int32_t *a, unsigned n)
{
	zetas(n);
	const int32_t *z = izeta_cache[lg(n)];
	unsigned t = 1;
	for (unsigned m = n / 2; m >= 1; m /= 2) {
		for (unsigned i = 0; i < m; i++) {
			int32_t zi = z[m + i];
			for (unsigned j = 2 * i * t; j < 2 * i * t + t; j++) {
				int32_t u = a[j], v = a[j + t];
				a[j] = md(u + v);
				a[j + t] = md((int64_t)(u - v) * zi);
			}
		}
		t *= 2;
	}
	int32_t ni = pw((int32_t)n, RQ - 2);
	for (unsigned i = 0; i < n; i++)
		a[i] = md((int64_t)a[i] * ni);
}
void ref_mul(const int32_t *a, const int32_t *b, int32_t *out, unsigned n)
{
	int32_t x[1024], y[1024];
	memcpy(x, a, n * sizeof *x);
	memcpy(y, b, n * sizeof *y);
	ref_ntt(x, n);
	ref_ntt(y, n);
	for (unsigned i = 0; i < n; i++)
		x[i] = md((int64_t)x[i] * y[i]);
	ref_intt(x, n);
	memcpy(out, x, n * sizeof *x);
}
int ref_invertible(const int32_t *a, unsigned n)
{
	int32_t x[1024];
	memcpy(x, a, n * sizeof *x);
	ref_ntt(x, n);
	for (unsigned i = 0; i < n; i++)
		if (!x[i])
			return 0;
	return 1;
}
/* h = num/den in Z_q[X]/(X^n+1); 0 when den is not invertible */
int ref_div(const int32_t *num, const int32_t *den, int32_t *out, unsigned n)
{
	int32_t x[1024], y[1024];
	memcpy(x, num, n * sizeof *x);
	memcpy(y, den, n * sizeof *y);
	ref_ntt(x, n);
	ref_ntt(y, n);
	for (unsigned i = 0; i < n; i++) {
		if (!y[i])
			return 0;
		x[i] = md((int64_t)x[i] * pw(y[i], RQ - 2));
	}
	ref_intt(x, n);
	memcpy(out, x, n * sizeof *x);
	return 1;
}

uint32_t ref_bound(unsigned logn)
{
	static const uint32_t b[] = {0, 101498, 208714, 428865, 892039, 1852696, 3842630, 7959734, 16468416, 34034726, 70265242};
	return b[logn];
}

static int bit(const uint8_t *in, size_t i) { return (in[i >> 3] >> (7 - (i & 7))) & 1; }

long ref_comp_dec(int32_t *x, unsigned n, const uint8_t *in, size_t len)
{
	size_t p = 0, end = 8 * len;
	for (unsigned i = 0; i < n; i++) {
		int s, low = 0, hi = 0;
		if (p + 8 > end)
			return -1;
		s = bit(in, p++);
		for (int k = 0; k < 7; k++)
			low = 2 * low + bit(in, p++);
		for (;;) {
			if (p >= end)
				return -1;
			if (bit(in, p++))
				break;
			if (++hi > 15)
				return -1;
		}
		int v = 128 * hi + low;
		if (s && v == 0)
			return -1;
		x[i] = s ? -v : v;
	}
	while (p & 7)
		if (bit(in, p++))
			return -1;
	return (long)(p / 8);
}
long ref_comp_enc(const int32_t *x, unsigned n, uint8_t *out, size_t max)
{
	size_t p = 0;
	memset(out, 0, max);
	for (unsigned i = 0; i < n; i++) {
		int v = abs(x[i]);
		if (v > 2047 || p + 9 + (size_t)(v >> 7) > 8 * max)
			return -1;
		int w = (x[i] < 0 ? 128 : 0) | (v & 127);
		for (int k = 7; k >= 0; k--, p++)
			out[p >> 3] |= (uint8_t)(((w >> k) & 1) << (7 - (p & 7)));
		p += (size_t)(v >> 7);
		out[p >> 3] |= (uint8_t)(1 << (7 - (p & 7)));
		p++;
	}
	return (long)((p + 7) / 8);
}
long ref_fix_dec(int32_t *x, unsigned n, unsigned bits, const uint8_t *in, size_t len)
{
	size_t need = ((size_t)n * bits + 7) / 8, p = 0;
	if (need > len)
		return -1;
	for (unsigned i = 0; i < n; i++) {
		int32_t v = 0;
		for (unsigned k = 0; k < bits; k++)
			v = 2 * v + bit(in, p++);
		x[i] = v;
	}
	while (p & 7)
		if (bit(in, p++))
			return -1;
	return (long)need;
}

static int cen(int32_t x) { x = md(x); return x > RQ / 2 ? x - RQ : x; }

static int short_enough(const int32_t *s1, const int32_t *s2, unsigned n, uint32_t bound)
{
	uint64_t t = 0;
	for (unsigned i = 0; i < n; i++)
		t += (uint64_t)((int64_t)cen(s1[i]) * cen(s1[i])) + (uint64_t)((int64_t)s2[i] * s2[i]);
	return t <= bound;
}

static int split(const uint8_t *sm, size_t smlen, size_t *sl, size_t *ml)
{
	if (smlen < 42)
		return 0;
	*sl = sm[0] * 256u + sm[1];
	if (*sl > smlen - 42)
		return 0;
	*ml = smlen - 42 - *sl;
	return 1;
}

static int core_check(int xof, const uint8_t *sm, size_t ml, const int32_t *s2, const int32_t *h, uint32_t bound)
{
	uint16_t c[512];
	int32_t p[512];
	ref_h2p(xof, sm + 2, 40 + ml, c, 512);
	ref_mul(s2, h, p, 512);
	for (int i = 0; i < 512; i++)
		p[i] = md((int32_t)c[i] - p[i]);
	return short_enough(p, s2, 512, bound);
}

int ref_open_nist(int xof, const uint8_t *sm, size_t smlen, const uint8_t *pk, size_t *mlen)
{
	int32_t h[512], s2[512];
	size_t sl, ml;
	if (pk[0] != 9 || ref_fix_dec(h, 512, 14, pk + 1, 896) != 896)
		return 0;
	for (int i = 0; i < 512; i++)
		if (h[i] >= RQ)
			return 0;
	if (!split(sm, smlen, &sl, &ml) || sl < 1)
		return 0;
	const uint8_t *e = sm + 42 + ml;
	if (e[0] != 0x29 || ref_comp_dec(s2, 512, e + 1, sl - 1) != (long)sl - 1)
		return 0;
	if (!core_check(xof, sm, ml, s2, h, ref_bound(9)))
		return 0;
	*mlen = ml;
	return 1;
}
static int dec16(int32_t *x, const uint8_t *in)
{
	ref_fix_dec(x, 512, 16, in, 1024);
	for (int i = 0; i < 512; i++)
		if (x[i] >= RQ)
			return 0;
	return 1;
}
int ref_open_zknox(int xof, const uint8_t *sm, size_t smlen, const uint8_t *pk, size_t *mlen)
{
	int32_t h[512], s2[512];
	size_t sl, ml;
	if (pk[0] != 9 || !dec16(h, pk + 1))
		return 0;
	ref_intt(h, 512);
	if (!split(sm, smlen, &sl, &ml) || sl != 1025)
		return 0;
	const uint8_t *e = sm + 42 + ml;
	if (e[0] != 0x29 || !dec16(s2, e + 1))
		return 0;
	for (int i = 0; i < 512; i++)
		s2[i] = cen(s2[i]);
	if (!core_check(xof, sm, ml, s2, h, ref_bound(9)))
		return 0;
	*mlen = ml;
	return 1;
}
uint32_t ref_hint(const int32_t *s2)
{
	int32_t t[512], p = 1;
	memcpy(t, s2, sizeof t);
	ref_ntt(t, 512);
	for (int i = 0; i < 512; i++)
		p = md((int64_t)p * t[i]);
	return (uint32_t)pw(p, RQ - 2);
}
int ref_open_epervier(const uint8_t *sm, size_t smlen, const uint8_t *pk, size_t *mlen)
{
	int32_t h[512], s1[512], s2[512], t[512], u[512];
	uint16_t c[512];
	size_t sl, ml;
	if (pk[0] != 9 || !dec16(h, pk + 1))
		return 0;
	if (!split(sm, smlen, &sl, &ml) || sl != 2052)
		return 0;
	const uint8_t *e = sm + 42 + ml;
	if (e[0] != 0x29 || e[1025] != 0x29 || !dec16(s1, e + 1) || !dec16(s2, e + 1026))
		return 0;
	for (int i = 0; i < 512; i++)
		s1[i] = cen(s1[i]), s2[i] = cen(s2[i]);
	ref_h2p(0, sm + 2, 40 + ml, c, 512);
	for (int i = 0; i < 512; i++)
		t[i] = md((int32_t)c[i] - s1[i]);
	ref_ntt(t, 512);
	memcpy(u, s2, sizeof u);
	ref_ntt(u, 512);
	for (int i = 0; i < 512; i++)
		if (!u[i] || md((int64_t)u[i] * h[i]) != t[i])
			return 0;
	if (!short_enough(s1, s2, 512, ref_bound(9)))
		return 0;
	/* the two hint bytes are advisory (only the on-chain verifier consumes them) */
	*mlen = ml;
	return 1;
}
