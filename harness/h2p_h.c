/* Hash-to-point with a real XOF (H2P_REAL) or with every answer of the XOF chosen by the checker. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "inner.h"
#include "ref.h"
typedef struct { long cases, accepted, bad; char msg[400]; } res;
#define BAD(...) do { if (!r->bad++) snprintf(r->msg, sizeof r->msg, __VA_ARGS__); } while (0)

#ifndef H2P_REAL
static uint8_t stream[65536];
static size_t slen, spos;
static void draw(uint8_t *out, size_t len)
{
	while (len--)
		*out++ = spos < slen ? stream[spos] : 0, spos++;
}
void Zf(i_shake256_init)(inner_shake256_context *c) { (void)c; }
void Zf(i_shake256_inject)(inner_shake256_context *c, const uint8_t *in, size_t len) { (void)c, (void)in, (void)len; }
void Zf(i_shake256_flip)(inner_shake256_context *c) { (void)c; }
void Zf(i_shake256_extract)(inner_shake256_context *c, uint8_t *out, size_t len) { (void)c; draw(out, len); }
int Zf(i_keccak256_init)(inner_keccak256_prng_ctx *c) { (void)c; return 0; }
int Zf(i_keccak256_inject)(inner_keccak256_prng_ctx *c, const uint8_t *in, size_t len) { (void)c, (void)in, (void)len; return 0; }
int Zf(i_keccak256_flip)(inner_keccak256_prng_ctx *c) { (void)c; return 0; }
int Zf(i_keccak256_extract)(inner_keccak256_prng_ctx *c, uint8_t *out, size_t len) { (void)c; draw(out, len); return 0; }

static const int over[] = {0, 65, 67, 71, 77, 86, 100, 122, 154, 205, 287};

static void judge(const uint16_t *w, int m, int logn, res *r, const char *lab)
{
	int n = 1 << logn, k = 0;
	uint16_t want[1024], a[1024 + 8], b[1024 + 8], c[1024 + 8];
	static uint16_t tmp[4096];
	inner_shake256_context sc;
	inner_keccak256_prng_ctx kc;
	memset(&sc, 0, sizeof sc);
	memset(&kc, 0, sizeof kc);
	for (int i = 0; i < m; i++) {
		stream[2 * i] = (uint8_t)(w[i] >> 8);
		stream[2 * i + 1] = (uint8_t)w[i];
		if (w[i] < 5 * RQ && k < n)
			want[k++] = w[i] % RQ;
	}
	slen = 2 * (size_t)m;
	for (int i = k; i < n; i++)
		want[i] = 0; /* stream continues with zeros */
	memset(a, 0x77, sizeof a);
	memset(b, 0x77, sizeof b);
	memset(c, 0x77, sizeof c);
	spos = 0;
	Zf(hash_to_point_vartime)(&sc, a, logn);
	spos = 0;
	Zf(keccak_hash_to_point_vartime)(&kc, b, logn);
	r->cases++;
	if (memcmp(a, want, 2 * n) || a[n] != 0x7777)
		BAD("degree 2^%d %s: plain version differs from the specification", logn, lab);
	if (memcmp(b, want, 2 * n) || b[n] != 0x7777)
		BAD("degree 2^%d %s: Keccak version differs from the specification", logn, lab);
	for (int i = 0; i < m; i++)
		if (w[i] >= 5 * RQ) {
			r->accepted++; /* non-trivial: a sample is rejected */
			break;
		}
	/* the constant-time version reads a fixed number of samples: it must agree whenever they contain enough valid ones */
	int valid = 0, M = n + over[logn];
	for (int i = 0; i < M; i++)
		valid += i >= m || w[i] < 5 * RQ;
	if (valid >= n) {
		spos = 0;
		Zf(hash_to_point_ct)(&sc, c, logn, (uint8_t *)tmp);
		if (memcmp(c, want, 2 * n) || c[n] != 0x7777)
			BAD("degree 2^%d %s: constant-time version differs", logn, lab);
	}
}
static void mk(uint16_t *w, int m) { for (int i = 0; i < m; i++) w[i] = (uint16_t)((i * 2654435761u >> 7) % 61445); }
static const uint16_t bv[] = {61445, 65535, 61446, 0xF800};

void h_values(int logn, int pos, res *r)
{
	uint16_t w[2048];
	char lab[64];
	int M = (1 << logn) + over[logn];
	memset(r, 0, sizeof *r);
	mk(w, M);
	for (int v = 0; v < 65536; v++) {
		w[pos] = (uint16_t)v;
		snprintf(lab, sizeof lab, "sample %d at %d", v, pos);
		judge(w, M, logn, r, lab);
	}
}
void h_runs(int logn, int lo, int hi, int lstep, res *r) /* every contiguous block of rejected samples */
{
	uint16_t w[2048];
	char lab[64];
	int M = (1 << logn) + over[logn];
	memset(r, 0, sizeof *r);
	for (int s = lo; s < hi; s++)
		for (int l = 1; s + l <= M && l <= over[logn] + 1; l += (l < 20 || l > over[logn] - 3) ? 1 : lstep) {
			mk(w, M);
			for (int i = s; i < s + l; i++)
				w[i] = bv[(s + i) % 4];
			snprintf(lab, sizeof lab, "rejected %d..%d", s, s + l - 1);
			judge(w, M, logn, r, lab);
		}
}
void h_pairs(int logn, int lo, int hi, int step, res *r) /* every pair of rejected samples; and every pair of accepted ones at degree 2 */
{
	uint16_t w[2048];
	char lab[64];
	int M = (1 << logn) + over[logn];
	memset(r, 0, sizeof *r);
	for (int i = lo; i < hi; i++)
		for (int j = i + 1; j < M; j += step) {
			mk(w, M);
			w[i] = bv[i & 3], w[j] = bv[j & 3];
			snprintf(lab, sizeof lab, "rejected %d,%d", i, j);
			judge(w, M, logn, r, lab);
			if (logn == 1) {
				for (int k = 0; k < M; k++)
					w[k] = k == i || k == j ? (uint16_t)(k * 911 % 61445) : 65535;
				snprintf(lab, sizeof lab, "only %d,%d accepted", i, j);
				judge(w, M, logn, r, lab);
			}
		}
}
void h_masks(int logn, int base, int bits, int lo, int hi, res *r) /* every accept/reject pattern of a window of samples */
{
	uint16_t w[2048];
	char lab[64];
	int M = (1 << logn) + over[logn];
	memset(r, 0, sizeof *r);
	for (int v = lo; v < hi; v++) {
		mk(w, M);
		for (int b = 0; b < bits && base + b < M; b++)
			if ((v >> b) & 1)
				w[base + b] = bv[b & 3];
		snprintf(lab, sizeof lab, "window at %d pattern %x", base, v);
		judge(w, M, logn, r, lab);
	}
}
void h_periodic(int logn, res *r) /* rejection with every period and phase, as dense as the oversampling allows */
{
	uint16_t w[2048];
	char lab[64];
	int n = 1 << logn, M = n + over[logn];
	memset(r, 0, sizeof *r);
	for (int p = 1; p <= 64; p++)
		for (int ph = 0; ph < p; ph++)
			for (int inv = 0; inv < 2; inv++) {
				int bad = 0;
				mk(w, M);
				for (int i = 0; i < M; i++)
					if (((i % p == ph) ^ inv) && bad < over[logn])
						w[i] = bv[i & 3], bad++;
				snprintf(lab, sizeof lab, "period %d phase %d inverted %d", p, ph, inv);
				judge(w, M, logn, r, lab);
			}
}
#else
void h_real(int logn, int lo, int hi, int pat, res *r)
{
	uint8_t m[9000];
	uint16_t want[1024], a[1024];
	static uint16_t tmp[4096];
	memset(r, 0, sizeof *r);
	for (int L = lo; L < hi; L++) {
		uint32_t x = (uint32_t)L * 77u + (uint32_t)logn + (uint32_t)pat * 131u;
		for (int i = 0; i < L; i++)
			x = x * 1664525u + 1013904223u, m[i] = (uint8_t)(pat == 1 ? 0 : pat == 2 ? 255 : x >> 24);
		for (int split = 0; split < 3; split++) {
			int cut = split == 0 ? L : split == 1 ? (L < 40 ? L : 40) : L / 2;
			inner_shake256_context sc;
			inner_keccak256_prng_ctx kc;
			ref_h2p(0, m, L, want, 1 << logn);
			for (int ct = 0; ct < 2; ct++) {
				inner_shake256_init(&sc);
				inner_shake256_inject(&sc, m, cut);
				if (cut < L)
					inner_shake256_inject(&sc, m + cut, L - cut);
				inner_shake256_flip(&sc);
				if (ct)
					Zf(hash_to_point_ct)(&sc, a, logn, (uint8_t *)tmp);
				else
					Zf(hash_to_point_vartime)(&sc, a, logn);
				r->cases++;
				if (memcmp(a, want, 2u << logn))
					BAD("degree 2^%d, %d bytes, split %d, constant-time %d: point differs (SHAKE256)", logn, L, cut, ct);
			}
			ref_h2p(1, m, L, want, 1 << logn);
			inner_keccak256_init(&kc);
			inner_keccak256_inject(&kc, m, cut);
			if (cut < L)
				inner_keccak256_inject(&kc, m + cut, L - cut);
			inner_keccak256_flip(&kc);
			Zf(keccak_hash_to_point_vartime)(&kc, a, logn);
			r->cases++;
			if (memcmp(a, want, 2u << logn))
				BAD("degree 2^%d, %d bytes, split %d: point differs (Keccak)", logn, L, cut);
		}
	}
}
#endif
