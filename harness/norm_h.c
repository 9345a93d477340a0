#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "inner.h"
#include "ref.h"
typedef struct { long cases, accepted, bad; char msg[400]; } res;

static void judge(const int16_t *s1, const int16_t *s2, int logn, res *r, const char *lab)
{
	uint64_t t = 0, h = 0;
	int n = 1 << logn;
	for (int i = 0; i < n; i++) {
		t += (uint64_t)((int64_t)s1[i] * s1[i]) + (uint64_t)((int64_t)s2[i] * s2[i]);
		h += (uint64_t)((int64_t)s1[i] * s1[i]);
	}
	int want = t <= ref_bound(logn);
	int a = Zf(is_short)(s1, s2, logn) != 0;
	/* half interface: first part is handed over as a saturating 32-bit sum */
	int b = h <= 0xFFFFFFFFull ? Zf(is_short_half)((uint32_t)h, s2, logn) != 0 : Zf(is_short_half)(0xFFFFFFFFu, s2, logn) != 0;
	r->cases++;
	r->accepted += want;
	if (a != want || b != want) {
		if (!r->bad++)
			snprintf(r->msg, sizeof r->msg, "degree 2^%d, %s: squared norm %llu bound %u, full test says %d, half test says %d", logn, lab, (unsigned long long)t, ref_bound(logn), a, b);
	}
}
/* fill order: positions are consumed from 'order' (0 ascending s1 then s2, 1 descending s2 then s1, 2 alternating) with value 'unit'
   until the rest of the target is below unit^2, then greedily with the largest squares */
static int build(uint64_t T, int logn, int order, int unit, int sgn, int16_t *s1, int16_t *s2)
{
	int n = 1 << logn, k = 0;
	memset(s1, 0, sizeof(int16_t) * n);
	memset(s2, 0, sizeof(int16_t) * n);
	while (T > 0) {
		if (k == 2 * n)
			return 0;
		int64_t v = unit;
		while ((uint64_t)(v * v) > T)
			v--;
		int idx = order == 0 ? k : order == 1 ? 2 * n - 1 - k : (k & 1 ? n : 0) + k / 2;
		int64_t w = sgn == 1 ? -v : sgn == 2 && (k & 1) ? -v : v;
		if (w > 32767)
			w = -w;
		if (idx < n)
			s1[idx] = (int16_t)w;
		else
			s2[idx - n] = (int16_t)w;
		T -= (uint64_t)(v * v);
		k++;
	}
	return 1;
}
void h_targets(int logn, const uint64_t *T, int nT, const int *units, int nu, res *r)
{
	int16_t s1[1024], s2[1024];
	char lab[120];
	memset(r, 0, sizeof *r);
	for (int i = 0; i < nT; i++)
		for (int u = 0; u < nu; u++)
			for (int o = 0; o < 3; o++)
				for (int s = 0; s < 3; s++)
					if (build(T[i], logn, o, units[u], s, s1, s2)) {
						snprintf(lab, sizeof lab, "target %llu unit %d order %d signs %d", (unsigned long long)T[i], units[u], o, s);
						judge(s1, s2, logn, r, lab);
					}
}
/* one coefficient takes every 16-bit value at each position of either half, the rest a constant */
void h_single(int logn, int plo, int phi, int step, int fill, res *r)
{
	int16_t s[2][1024];
	char lab[100];
	int n = 1 << logn;
	memset(r, 0, sizeof *r);
	for (int i = 0; i < n; i++)
		s[0][i] = s[1][i] = (int16_t)fill;
	for (int p = plo; p < phi; p += step)
		for (int w = 0; w < 2; w++) {
			for (int v = -32768; v <= 32767; v++) {
				s[w][p] = (int16_t)v;
				snprintf(lab, 0, "x");
				res q = {0};
				judge(s[0], s[1], logn, &q, "one coefficient");
				r->cases++;
				r->accepted += q.accepted;
				if (q.bad && !r->bad++)
					snprintf(r->msg, sizeof r->msg, "half %d position %d value %d: %.200s", w, p, v, q.msg);
			}
			s[w][p] = (int16_t)fill;
		}
}
/* degree 2: all small quadruples on a lattice around the boundary sphere */
void h_quads(int lo, int hi, res *r)
{
	memset(r, 0, sizeof *r);
	for (int a = lo; a < hi; a++)
		for (int b = 0; b <= 330; b++)
			for (int c = 0; c <= 330; c += 3) {
				int64_t rest = 101498 - (int64_t)a * a - (int64_t)b * b - (int64_t)c * c;
				int d0 = 0;
				if (rest > 0)
					while ((int64_t)(d0 + 1) * (d0 + 1) <= rest)
						d0++;
				for (int d = d0 - 1; d <= d0 + 2; d++) {
					int16_t s1[2] = {(int16_t)a, (int16_t)-b}, s2[2] = {(int16_t)c, (int16_t)d};
					judge(s1, s2, 1, r, "quadruple");
				}
			}
}
/* the same vectors through the verification functions of every degree: c = s1 + s2*h for a fixed dense h */
void h_raw(int logn, const uint64_t *T, int nT, const int *units, int nu, res *r)
{
	int n = 1 << logn;
	int16_t s1[1024], s2[1024];
	int32_t a[1024], b[1024], p[1024];
	uint16_t c[1024], h[1024], k[1024];
	uint64_t tmp[2048];
	memset(r, 0, sizeof *r);
	for (int i = 0; i < nT; i++)
		for (int u = 0; u < nu; u++)
			for (int o = 0; o < 3; o++)
				for (int s = 0; s < 3; s++) {
					if (!build(T[i], logn, o, units[u], s, s1, s2))
						continue;
					for (int x = 0; x < n; x++)
						h[x] = (uint16_t)((x * 7919 + i * 31 + o) % RQ), b[x] = h[x], a[x] = ((int)s2[x] + RQ) % RQ;
					ref_mul(a, b, p, n);
					for (int x = 0; x < n; x++)
						c[x] = (uint16_t)((p[x] + (int)s1[x] + RQ) % RQ);
					int want = T[i] <= ref_bound(logn);
					memcpy(k, h, sizeof k);
					Zf(to_ntt_monty)(k, logn);
					r->cases++;
					r->accepted += want;
					int got = Zf(verify_raw)(c, s2, k, logn, (uint8_t *)tmp) != 0;
					int inv = ref_invertible(a, n), rec = want && inv, g2 = Zf(verify_recover)(k, c, s1, s2, logn, (uint8_t *)tmp) != 0, g3 = Zf(verify_recover_epervier)(k, c, s1, s2, logn, (uint8_t *)tmp) != 0;
					if ((got != want || g2 != rec || g3 != rec) && !r->bad++)
						snprintf(r->msg, sizeof r->msg, "degree 2^%d, squared norm %llu (bound %u) in units of %d, order %d, signs %d: verify_raw says %d, verify_recover %d, its transform form %d (s2 %sinvertible)",
							 logn, (unsigned long long)T[i], ref_bound(logn), units[u], o, s, got, g2, g3, inv ? "" : "not ");
				}
}
