#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "inner.h"
#include "ref.h"
typedef struct { long cases, accepted, bad; char msg[400]; } res;
static int md(int64_t x) { x %= RQ; return (int)(x < 0 ? x + RQ : x); }
static int cen(int x) { x = md(x); return x > RQ / 2 ? x - RQ : x; }
#define BAD(...) do { if (!r->bad++) snprintf(r->msg, sizeof r->msg, __VA_ARGS__); } while (0)
static uint32_t rs = 1;
static uint32_t rnd(void) { rs = rs * 1664525u + 1013904223u; return rs >> 8; }

static void one_ntt(const int32_t *x, int logn, res *r, const char *lab)
{
	int n = 1 << logn;
	uint16_t a[1024], b[1024];
	int32_t e[1024];
	for (int i = 0; i < n; i++)
		a[i] = b[i] = (uint16_t)x[i], e[i] = x[i];
	Zf(to_ntt)(a, logn);
	Zf(to_ntt_monty)(b, logn);
	ref_ntt(e, n);
	r->cases++;
	for (int i = 0; i < n; i++)
		if (a[i] != e[i] || b[i] != md((int64_t)e[i] * 65536 % RQ)) {
			BAD("transform at degree 2^%d, %s: output %d is %d/%d, should be %d", logn, lab, i, a[i], b[i], e[i]);
			return;
		}
}
void h_ntt_pairs(int lo, int hi, res *r)
{
	memset(r, 0, sizeof *r);
	int32_t z[2] = {0, 1};
	ref_ntt(z, 2); /* images of X at the two points */
	for (int a = lo; a < hi; a++)
		for (int b = 0; b < RQ; b++) {
			uint16_t x[2] = {(uint16_t)a, (uint16_t)b};
			Zf(to_ntt)(x, 1);
			r->cases++;
			if (x[0] != (a + (int64_t)b * z[0]) % RQ || x[1] != (a + (int64_t)b * z[1]) % RQ)
				BAD("transform at degree 2 of (%d,%d) gives (%d,%d)", a, b, x[0], x[1]);
		}
}
void h_ntt_basis(int logn, int lo, int hi, res *r)
{
	static const int vals[] = {1, 2, 3, 4095, 4091, 6144, 6145, 12287, 12288};
	int n = 1 << logn;
	int32_t x[1024];
	char lab[80];
	memset(r, 0, sizeof *r);
	for (int i = lo; i < hi; i++)
		for (unsigned k = 0; k < sizeof vals / sizeof *vals; k++) {
			memset(x, 0, sizeof x);
			x[i] = vals[k];
			snprintf(lab, sizeof lab, "%d X^%d", vals[k], i);
			one_ntt(x, logn, r, lab);
			x[(i + n / 2) % n] = RQ - 1; /* second monomial that meets it in the first layer */
			one_ntt(x, logn, r, lab);
			for (int j = 0; j < n; j++)
				x[j] = j == i ? vals[k] : RQ - 1;
			one_ntt(x, logn, r, lab);
		}
}
void h_ntt_values(int logn, int pos, res *r)
{
	int32_t x[1024];
	char lab[80];
	memset(r, 0, sizeof *r);
	for (int v = 0; v < RQ; v++) {
		for (int j = 0; j < 1 << logn; j++)
			x[j] = 0;
		x[pos] = v;
		snprintf(lab, sizeof lab, "%d X^%d", v, pos);
		one_ntt(x, logn, r, lab);
	}
}
/* exact division of every residue by every residue, through key recovery at degree 2 */
void h_div(int lo, int hi, res *r)
{
	static int inv[RQ];
	uint64_t tmp[64];
	memset(r, 0, sizeof *r);
	inv[1] = 1;
	for (int i = 2; i < RQ; i++)
		inv[i] = md(-(int64_t)(RQ / i) * inv[RQ % i]);
	for (int y = lo; y < hi; y++) {
		int16_t s1[2] = {0, 0}, s2[2] = {(int16_t)cen(y), 0};
		for (int x = 0; x < RQ; x++) {
			uint16_t c0[2] = {(uint16_t)x, 0}, h[2];
			Zf(verify_recover)(h, c0, s1, s2, 1, (uint8_t *)tmp);
			r->cases++;
			if (y && (h[0] != (int64_t)x * inv[y] % RQ || h[1] != 0))
				BAD("%d / %d computed as %d,%d", x, y, h[0], h[1]);
		}
	}
}
/* verification equation at degree 2: every small s2 constant times every residue */
void h_mul(int lo, int hi, res *r)
{
	uint64_t tmp[64];
	memset(r, 0, sizeof *r);
	for (int s = lo; s < hi; s++)
		for (int y = 0; y < RQ; y++) {
			int16_t s2[2] = {(int16_t)s, 0};
			uint16_t h[2] = {(uint16_t)y, 0}, c0[2] = {(uint16_t)md((int64_t)s * y), 0}, c1[2];
			int want = (int64_t)s * s <= 101498;
			memcpy(c1, c0, sizeof c0);
			c1[1] = 6000;
			Zf(to_ntt_monty)(h, 1);
			r->cases++;
			if (Zf(verify_raw)(c0, s2, h, 1, (uint8_t *)tmp) != want || Zf(verify_raw)(c1, s2, h, 1, (uint8_t *)tmp) != 0)
				BAD("verification equation wrong for s2=%d h=%d", s, y);
		}
}
/* s1 so that |s1|^2+|s2|^2 = T exactly, spread over all positions */
static int fill_s1(int32_t *s1, int n, uint64_t T, const int16_t *s2)
{
	for (int i = 0; i < n; i++)
		T -= (uint64_t)((int)s2[i] * s2[i]);
	if ((int64_t)T < 0)
		return 0;
	uint64_t per = T / n;
	int v = 0;
	while ((uint64_t)(v + 1) * (v + 1) <= per)
		v++;
	memset(s1, 0, n * sizeof *s1);
	for (int i = 8; i < n; i++) {
		s1[i] = (i * 7 & 8) ? -v : v;
		T -= (uint64_t)v * v;
	}
	for (int i = 0; i < 8 && i < n && T; i++) {
		int64_t w = 0;
		while ((uint64_t)(w + 1) * (w + 1) <= T && w < 6144)
			w++;
		s1[i] = (int32_t)((i & 1) ? -w : w);
		T -= (uint64_t)(w * w);
	}
	return T == 0;
}
static void one_verify(const int16_t *s2, const int32_t *h, int logn, res *r, const char *lab)
{
	int n = 1 << logn;
	int32_t p[1024], s1[1024], x[1024];
	uint16_t hh[1024], c0[1024], hr[1024];
	int16_t t1[1024];
	uint64_t tmp[1024];
	for (int i = 0; i < n; i++)
		x[i] = s2[i], hh[i] = (uint16_t)h[i];
	ref_mul(x, h, p, n);
	Zf(to_ntt_monty)(hh, logn);
	int inv = ref_invertible(x, n);
	for (int d = 0; d < 2; d++) {
		if (!fill_s1(s1, n, (uint64_t)ref_bound(logn) + d, s2))
			continue;
		for (int i = 0; i < n; i++)
			c0[i] = (uint16_t)md((int64_t)s1[i] + p[i]), t1[i] = (int16_t)s1[i];
		r->cases++;
		r->accepted += !d;
		if (Zf(verify_raw)(c0, s2, hh, logn, (uint8_t *)tmp) != !d)
			BAD("degree 2^%d %s: norm bound+%d judged wrongly", logn, lab, d);
		if (Zf(is_invertible)(s2, logn, (uint8_t *)tmp) != inv)
			BAD("degree 2^%d %s: invertibility test wrong", logn, lab);
		if (Zf(verify_recover)(hr, c0, t1, s2, logn, (uint8_t *)tmp) != (inv && !d))
			BAD("degree 2^%d %s: recovery verdict wrong", logn, lab);
		else if (inv)
			for (int i = 0; i < n; i++)
				if (hr[i] != h[i]) {
					BAD("degree 2^%d %s: recovered key differs at %d", logn, lab, i);
					break;
				}
		if (Zf(verify_recover_epervier)(hr, c0, t1, s2, logn, (uint8_t *)tmp) != (inv && !d))
			BAD("degree 2^%d %s: transform-domain recovery verdict wrong", logn, lab);
		else if (inv) {
			int32_t e[1024];
			memcpy(e, h, sizeof(int32_t) * n);
			ref_ntt(e, n);
			for (int i = 0; i < n; i++)
				if (hr[i] != e[i]) {
					BAD("degree 2^%d %s: recovered transformed key differs at %d", logn, lab, i);
					break;
				}
		}
	}
}
/* every pair of exponents */
void h_monomials(int logn, int lo, int hi, int step, res *r)
{
	int n = 1 << logn;
	int16_t s2[1024];
	int32_t h[1024];
	char lab[80];
	memset(r, 0, sizeof *r);
	for (int i = lo; i < hi; i++)
		for (int j = (i * 5) % step; j < n; j += step) {
			memset(s2, 0, sizeof s2);
			memset(h, 0, sizeof h);
			s2[i] = (int16_t)((j & 1) ? -(1 + (i + j) % 200) : 1 + (i + j) % 200);
			h[j] = 1 + (i * 97 + j * 31) % (RQ - 1);
			snprintf(lab, sizeof lab, "%d X^%d times %d X^%d", s2[i], i, h[j], j);
			one_verify(s2, h, logn, r, lab);
		}
}
void h_dense(int logn, int count, unsigned seed, res *r)
{
	int n = 1 << logn;
	int16_t s2[1024];
	int32_t h[1024];
	char lab[80];
	memset(r, 0, sizeof *r);
	rs = seed;
	for (int k = 0; k < count; k++) {
		static const int hv[] = {0, 1, 6144, 6145, 12287, 12288};
		for (int i = 0; i < n; i++) {
			s2[i] = (int16_t)(k % 3 == 0 ? (int)(rnd() % 301) - 150 : k % 3 == 1 ? (rnd() & 1 ? 180 : -180) : -100);
			h[i] = k % 4 == 0 ? hv[rnd() % 6] : (int)(rnd() % RQ);
		}
		snprintf(lab, sizeof lab, "dense case %d", k);
		one_verify(s2, h, logn, r, lab);
	}
}
/* vectors with a prescribed zero set in the transform domain */
void h_zeros(int logn, int lo, int hi, int pairstep, res *r)
{
	int n = 1 << logn;
	memset(r, 0, sizeof *r);
	for (int i = lo; i < hi; i++)
		for (int j = -1; j < n; j += (j < 0 ? 1 : pairstep))
			for (int lead = 0; lead < 3; lead++) {
				int32_t e[1024], g[1024];
				int16_t s[1024];
				uint64_t tmp[1024];
				for (int k = 0; k < n; k++)
					e[k] = lead == 0 ? 1 : lead == 1 ? RQ - 1 : 1 + (k * 7919 + i) % (RQ - 1);
				e[i] = 0;
				if (j >= 0)
					e[j] = 0;
				memcpy(g, e, sizeof(int32_t) * n);
				ref_intt(g, n);
				int z = j >= 0 && j != i ? 2 : 1;
				for (int k = 0; k < n; k++)
					s[k] = (int16_t)cen(g[k]);
				r->cases++;
				if (Zf(is_invertible)(s, logn, (uint8_t *)tmp) != 0)
					BAD("degree 2^%d: vector with zeros at %d,%d of its transform is called invertible", logn, i, j);
				if (Zf(count_nttzero)(s, logn, (uint8_t *)tmp) != z)
					BAD("degree 2^%d: zeros at %d,%d counted as %d", logn, i, j, Zf(count_nttzero)(s, logn, (uint8_t *)tmp));
				uint16_t c0[1024] = {0}, h[1024];
				int16_t s1[1024] = {0};
				if (Zf(verify_recover)(h, c0, s1, s, logn, (uint8_t *)tmp) || Zf(verify_recover_epervier)(h, c0, s1, s, logn, (uint8_t *)tmp))
					BAD("degree 2^%d: key recovered from a non-invertible vector (zeros at %d,%d)", logn, i, j);
			}
	/* short vectors a*X^k + b*X^(k+1) with exactly one zero: only the missing inverse can refuse them */
	int32_t root[1024] = {0};
	root[1] = 1;
	ref_ntt(root, n);
	for (int i = lo; i < hi; i++) {
		long best = 1L << 60, A = 0, B = 0;
		for (long b = 1; b < 260; b++) {
			long a = cen((int32_t)(RQ - b * root[i] % RQ));
			if (a * a + b * b < best)
				best = a * a + b * b, A = a, B = b;
		}
		for (int k = 0; k < n; k += (n > 4 ? n / 4 : 1)) {
			int16_t s[1024] = {0}, s1[1024];
			uint16_t c0[1024], h[1024];
			uint64_t tmp[1024];
			s[k] = (int16_t)A;
			s[(k + 1) % n] = (int16_t)(k + 1 < n ? B : -B);
			for (int u = 0; u < n; u++)
				c0[u] = (uint16_t)((u * 977 + i * 31 + k) % RQ), s1[u] = (int16_t)((u * 7 + i) % 61 - 30);
			r->cases++;
			if (Zf(is_invertible)(s, logn, (uint8_t *)tmp) != 0 || Zf(count_nttzero)(s, logn, (uint8_t *)tmp) != 1)
				BAD("degree 2^%d: the short vector %ld*X^%d%+ld*X^%d, zero in slot %d of its transform, is called invertible or has another number of zeros", logn, A, k, B, k + 1, i);
			if (Zf(verify_recover)(h, c0, s1, s, logn, (uint8_t *)tmp) || Zf(verify_recover_epervier)(h, c0, s1, s, logn, (uint8_t *)tmp))
				BAD("degree 2^%d: key recovered from the short non-invertible vector %ld*X^%d%+ld*X^%d (zero in slot %d)", logn, A, k, B, k + 1, i);
		}
	}
	for (int lead = 0; lead < 40 && lo == 0; lead++) { /* no zero at all */
		int32_t g[1024];
		int16_t s[1024];
		uint64_t tmp[1024];
		for (int k = 0; k < n; k++)
			g[k] = lead == 0 ? 1 : lead == 1 ? RQ - 1 : 1 + (k * 7919 + lead * 131) % (RQ - 1);
		ref_intt(g, n);
		for (int k = 0; k < n; k++)
			s[k] = (int16_t)cen(g[k]);
		r->cases++;
		if (Zf(is_invertible)(s, logn, (uint8_t *)tmp) != 1 || Zf(count_nttzero)(s, logn, (uint8_t *)tmp) != 0)
			BAD("degree 2^%d: an invertible vector is refused", logn);
	}
}
static void one_key(const int8_t *f, const int8_t *g, const int8_t *F, int logn, res *r, const char *lab)
{
	int n = 1 << logn;
	int32_t x[1024], y[1024], z[1024], o[1024], G[1024];
	uint16_t h[1024];
	int8_t g2[1024];
	uint64_t tmp[2048];
	for (int i = 0; i < n; i++)
		x[i] = f[i], y[i] = g[i], z[i] = F[i];
	int ok = ref_div(y, x, o, n);
	r->cases++;
	if (Zf(compute_public)(h, f, g, logn, (uint8_t *)tmp) != ok)
		BAD("degree 2^%d %s: public key existence judged wrongly", logn, lab);
	else if (ok)
		for (int i = 0; i < n; i++)
			if (h[i] != o[i]) {
				BAD("degree 2^%d %s: public key coefficient %d is %d, should be %d", logn, lab, i, h[i], o[i]);
				break;
			}
	int want = ok;
	if (ok) {
		ref_mul(o, z, G, n);
		for (int i = 0; i < n; i++) {
			G[i] = cen(G[i]);
			if (G[i] < -127 || G[i] > 127)
				want = 0;
		}
	}
	r->accepted += want;
	if (Zf(complete_private)(g2, f, g, F, logn, (uint8_t *)tmp) != want)
		BAD("degree 2^%d %s: private key completion judged wrongly", logn, lab);
	else if (want)
		for (int i = 0; i < n; i++)
			if (g2[i] != G[i]) {
				BAD("degree 2^%d %s: completed coefficient %d is %d, should be %d", logn, lab, i, g2[i], G[i]);
				break;
			}
}
void h_keys_small(int lo, int hi, res *r)
{
	static const int gv[] = {-127, -1, 0, 1, 5, 127}, Fv[] = {-127, 0, 1, 127};
	memset(r, 0, sizeof *r);
	for (int a = lo; a < hi; a++)
		for (int b = -127; b <= 127; b++)
			for (int i = 0; i < 36; i++) {
				int8_t f[2] = {(int8_t)a, (int8_t)b}, g[2] = {(int8_t)gv[i / 6], (int8_t)gv[i % 6]}, F[2] = {(int8_t)Fv[i % 4], (int8_t)Fv[(i / 4) % 4]};
				one_key(f, g, F, 1, r, "all small keys");
			}
}
void h_keys_mono(int logn, int lo, int hi, int step, res *r)
{
	int n = 1 << logn;
	char lab[80];
	memset(r, 0, sizeof *r);
	for (int i = lo; i < hi; i++)
		for (int j = (i * 3) % step; j < n; j += step) {
			int8_t f[1024] = {0}, g[1024] = {0}, F[1024] = {0};
			f[i] = (int8_t)((i ^ j) & 1 ? -1 : 1);
			g[j] = (int8_t)(1 + (i * 13 + j) % 127);
			F[(i + j) % n] = (int8_t)(((i + 2 * j) % 255) - 127);
			if (j % 3 == 0) g[(j + 1) % n] = -1, F[(i + j) % n] /= 2;
			snprintf(lab, sizeof lab, "monomials %d,%d", i, j);
			one_key(f, g, F, logn, r, lab);
		}
}
/* exact boundary of the accepted coefficient range of the completed key, at every position */
void h_keys_range(int logn, int lo, int hi, res *r)
{
	int n = 1 << logn;
	char lab[80];
	memset(r, 0, sizeof *r);
	for (int p = lo; p < hi; p++)
		for (int v = 120; v <= 135; v++)
			for (int s = -1; s <= 1; s += 2) {
				int8_t f[1024] = {0}, g[1024] = {0}, F[1024] = {0};
				f[0] = 1;
				g[0] = 1;
				F[p] = (int8_t)(s * (v > 127 ? 127 : v));
				if (v > 127) { /* G = (1 + X^k) * ... adds up to v at position p */
					int k = n / 2;
					g[k] = 1;
					int q = (p - k + n) % n;
					F[q] = (int8_t)((p - k < 0 ? -1 : 1) * s * (v - 127));
					if (n == 2 && q == p) continue;
				}
				snprintf(lab, sizeof lab, "completed coefficient %d at %d", s * v, p);
				one_key(f, g, F, logn, r, lab);
			}
}
/* the oracle itself: transform-based product equals the schoolbook product */
void h_selfcheck(int logn, int count, res *r)
{
	int n = 1 << logn;
	int32_t a[1024], b[1024], x[1024], y[1024];
	memset(r, 0, sizeof *r);
	rs = 7;
	for (int k = 0; k < count; k++) {
		for (int i = 0; i < n; i++)
			a[i] = (int)(rnd() % RQ), b[i] = (int)(rnd() % RQ) - 6000;
		ref_mul(a, b, x, n);
		ref_mul_school(a, b, y, n);
		r->cases++;
		if (memcmp(x, y, sizeof(int32_t) * n))
			BAD("oracle broken");
	}
}
