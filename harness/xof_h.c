/* Streaming XOFs: product exploration of the implementation context with the one-shot specification. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "inner.h"
#include "keccak256.h"
#include "ref.h"
typedef struct { long cases, accepted, bad; char msg[400]; } res;
#define BAD(...) do { if (!r->bad++) snprintf(r->msg, sizeof r->msg, __VA_ARGS__); } while (0)
#define MAXL 70000
static uint8_t data[MAXL + 64];
static void fill(void) { uint32_t x = 99; for (int i = 0; i < MAXL + 64; i++) x = x * 1664525u + 1013904223u, data[i] = (uint8_t)(x >> 24); }

/* in, out: bytes absorbed and squeezed so far, i.e. the state of the model; n_edges and the set count what was explored */
typedef struct { union { inner_shake256_context s; inner_keccak256_prng_ctx k; }; uint64_t in, out; } ctx;
long n_edges, n_states;
static uint64_t seen[1 << 20];
static void visit(int kind, const ctx *c)
{
	uint64_t key = 1 + (((uint64_t)kind << 62) | c->in << 31 | c->out), i = (key * 0x9E3779B97F4A7C15u) >> 44;
	n_edges++;
	while (seen[i] && seen[i] != key)
		i = (i + 1) & 0xFFFFF;
	if (!seen[i] && n_states < 900000)
		seen[i] = key, n_states++;
}
static void c_init(int kind, ctx *c) { c->in = c->out = 0; visit(kind, c); if (kind) inner_keccak256_init(&c->k); else inner_shake256_init(&c->s); }
static int c_inj(int kind, ctx *c, const uint8_t *p, size_t n) { c->in += n; visit(kind, c); if (kind) return inner_keccak256_inject(&c->k, p, n); inner_shake256_inject(&c->s, p, n); return 0; }
static int c_flip(int kind, ctx *c) { c->in |= 1u << 30; visit(kind, c); if (kind) return inner_keccak256_flip(&c->k); inner_shake256_flip(&c->s); return 0; }
static int c_ext(int kind, ctx *c, uint8_t *p, size_t n) { c->out += n; visit(kind, c); if (kind) return inner_keccak256_extract(&c->k, p, n); inner_shake256_extract(&c->s, p, n); return 0; }
static void spec(int kind, size_t len, uint8_t *out, size_t n) { if (kind) ref_kprng(data, len, out, n); else ref_shake256(data, len, out, n); }

/* every message length, every split in two, the second half read from a pointer of every alignment */
void h_split2(int kind, int lo, int hi, int step, res *r)
{
	uint8_t want[72], got[80];
	static uint8_t sh[MAXL + 80];
	memset(r, 0, sizeof *r);
	fill();
	for (int L = lo; L < hi; L++) {
		spec(kind, L, want, 72);
		for (int a = 0; a <= L; a += (a < 2 || a > L - 2) ? 1 : step) {
			ctx c;
			memset(&c, 0xEE, sizeof c);
			int al = (a + L) & 7;
			memcpy(sh + al, data + a, L - a);
			c_init(kind, &c);
			c_inj(kind, &c, data, a);
			c_inj(kind, &c, sh + al, L - a);
			c_flip(kind, &c);
			memset(got, 0, sizeof got);
			c_ext(kind, &c, got, 72);
			r->cases++;
			if (memcmp(want, got, 72))
				BAD("%s: %d bytes absorbed as %d+%d (alignment %d) give another stream", kind ? "Keccak" : "SHAKE256", L, a, L - a, al);
		}
	}
}
/* every sequence of up to depth chunk sizes on the input side, then on the output side; contexts are cloned at each node */
static const int CH[] = {0, 1, 2, 7, 8, 9, 31, 32, 33, 64, 127, 135, 136, 137, 271, 272, 273, 408};
#define NCH ((int)(sizeof CH / sizeof *CH))
static long nodes;
static void exp_out(int kind, ctx *c, const uint8_t *want, int pos, int depth, char *path, res *r)
{
	for (int i = 0; i < NCH; i++) {
		ctx d = *c;
		uint8_t buf[512];
		memset(buf, 0x3C, sizeof buf);
		c_ext(kind, &d, buf, CH[i]);
		r->cases++;
		char p2[160];
		snprintf(p2, sizeof p2, "%s>%d", path, CH[i]);
		if (memcmp(buf, want + pos, CH[i]) || buf[CH[i]] != 0x3C)
			BAD("%s: operations %s: output differs from the stream", kind ? "Keccak" : "SHAKE256", p2);
		if (depth > 1)
			exp_out(kind, &d, want, pos + CH[i], depth - 1, p2, r);
	}
}
static void exp_in(int kind, ctx *c, int pos, int depth, int odepth, char *path, res *r)
{
	ctx d = *c;
	static __thread uint8_t want[4096];
	uint8_t w[4096];
	spec(kind, pos, w, 1700);
	(void)want;
	if (c_flip(kind, &d) != 0)
		BAD("flip refused");
	exp_out(kind, &d, w, 0, odepth, path, r);
	if (!depth)
		return;
	for (int i = 0; i < NCH; i++) {
		ctx e = *c;
		char p2[160];
		c_inj(kind, &e, data + pos, CH[i]);
		r->cases++;
		snprintf(p2, sizeof p2, "%s<%d", path, CH[i]);
		exp_in(kind, &e, pos + CH[i], depth - 1, odepth, p2, r);
	}
}
void h_tree(int kind, int first, int idepth, int odepth, res *r)
{
	ctx c;
	char p[40];
	memset(r, 0, sizeof *r);
	fill();
	memset(&c, 0xEE, sizeof c);
	c_init(kind, &c);
	c_inj(kind, &c, data, CH[first]);
	snprintf(p, sizeof p, "<%d", CH[first]);
	exp_in(kind, &c, CH[first], idepth - 1, odepth, p, r);
}
/* phase discipline of the Keccak generator: wrong-phase calls fail and change nothing */
void h_phase(res *r)
{
	memset(r, 0, sizeof *r);
	fill();
	for (int seq = 0; seq < 4 * 4 * 4 * 4 * 4; seq++) {
		ctx c;
		uint8_t want[200], got[200];
		int absorbed = 0, fin = 0, out = 0, s = seq, ok = 1;
		c_init(1, &c);
		for (int k = 0; k < 5; k++, s /= 4) {
			int op = s & 3;
			if (op == 0) {
				int rc = c_inj(1, &c, data + absorbed, 37);
				if ((rc == 0) == fin) ok = 0;
				if (!fin) absorbed += 37;
			} else if (op == 1) {
				int rc = c_flip(1, &c);
				if ((rc == 0) == fin) ok = 0;
				fin = 1;
			} else if (op == 2) {
				memset(got, 0x11, sizeof got);
				int rc = c_ext(1, &c, got, 21);
				if ((rc == 0) != fin) ok = 0;
				if (fin) {
					ref_kprng(data, absorbed, want, out + 21);
					if (memcmp(want + out, got, 21)) ok = 0;
					out += 21;
				} else
					for (int j = 0; j < 21; j++)
						if (got[j] != 0x11) ok = 0;
			} else {
				c_init(1, &c);
				absorbed = fin = out = 0;
			}
			r->cases++;
			if (!ok) {
				BAD("Keccak: operation sequence %d breaks the phase discipline at step %d", seq, k);
				break;
			}
		}
	}
}
/* the plain hash: every length, chunking by one boundary, every pointer alignment */
void h_hash(int lo, int hi, res *r)
{
	uint8_t want[32], got[32];
	static uint64_t store[9000];
	uint8_t *sh = (uint8_t *)store;
	memset(r, 0, sizeof *r);
	fill();
	for (int L = lo; L < hi; L++) {
		ref_keccak256(data, L, want);
		for (int al = 0; al < 8; al++) {
			memcpy(sh + al, data, L);
			for (int k = 0; k < 6; k++) {
				int a = k == 0 ? 0 : k == 1 ? L / 2 : k == 2 ? (L > 136 ? 136 : L) : k == 3 ? (L > 135 ? 135 : L) : k == 4 ? (L > 137 ? 137 : L) : (L ? 1 : 0);
				SHA3_CTX c;
				memset(&c, 0x55, sizeof c);
				keccak_init(&c);
				keccak_update(&c, sh + al, a);
				keccak_update(&c, sh + al + a, L - a);
				keccak_final(&c, got);
				r->cases++;
				if (memcmp(want, got, 32))
					BAD("Keccak-256 of %d bytes as %d+%d at alignment %d is wrong", L, a, L - a, al);
			}
		}
	}
}
/* single-bit sensitivity of the permutation inputs: every byte position of one block x every bit, and long outputs */
void h_bits(int kind, int len, res *r)
{
	uint8_t want[300], got[300];
	memset(r, 0, sizeof *r);
	for (int b = -1; b < 8 * len; b++) {
		ctx c;
		memset(data, 0, len);
		if (b >= 0)
			data[b >> 3] = (uint8_t)(1 << (b & 7));
		spec(kind, len, want, 300);
		c_init(kind, &c);
		c_inj(kind, &c, data, len);
		c_flip(kind, &c);
		c_ext(kind, &c, got, 300);
		r->cases++;
		if (memcmp(want, got, 300))
			BAD("%s of %d bytes with only bit %d set is wrong", kind ? "Keccak" : "SHAKE256", len, b);
	}
}
/* long streams and long inputs */
void h_long(int kind, int which, res *r)
{
	static uint8_t a[2200000], b[2200000];
	ctx c;
	memset(r, 0, sizeof *r);
	fill();
	if (which == 0) {
		spec(kind, 48, a, sizeof a);
		c_init(kind, &c);
		c_inj(kind, &c, data, 48);
		c_flip(kind, &c);
		c_ext(kind, &c, b, sizeof b);
		r->cases++;
		if (memcmp(a, b, sizeof a))
			BAD("long output of kind %d differs", kind);
		if (kind) {
			/* the counter is the one 64-bit word of the context that grows by one with each block: set it just below every power of two */
			uint64_t s[3][sizeof c.k / 8], st[4];
			size_t at = 0, hits = 0;
			c_init(1, &c);
			c_inj(1, &c, data, 48);
			c_flip(1, &c);
			for (int i = 0; i < 3; i++) {
				c_ext(1, &c, b, 32);
				memcpy(s[i], &c.k, sizeof s[i]);
			}
			for (size_t i = 0; i < sizeof c.k / 8; i++)
				if (s[0][i] + 1 == s[1][i] && s[0][i] + 2 == s[2][i])
					at = i, hits++;
			ref_keccak256(data, 48, (uint8_t *)st);
			for (int k = 7; hits == 1 && k <= 64; k++) {
				uint64_t v = (k == 64 ? 0 : 1ull << k) - 2, w = v + s[2][at] - 3;
				memcpy((uint8_t *)&c.k + 8 * at, &w, 8);
				memset(b, 0, 128);
				inner_keccak256_extract(&c.k, b, 128);
				for (int i = 0; i < 4; i++) {
					uint8_t in[40];
					memcpy(in, st, 32);
					for (int j = 0; j < 8; j++)
						in[32 + j] = (uint8_t)((v + i) >> (56 - 8 * j));
					ref_keccak256(in, 40, a + 32 * i);
				}
				r->cases++;
				if (memcmp(a, b, 128))
					BAD("block with counter just below 2^%d differs (kind %d)", k, kind);
			}
		}
	} else {
		static const int Ls[] = {4055, 4056, 4057, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 69999};
		for (unsigned i = 0; i < sizeof Ls / sizeof *Ls; i++)
			for (int pre = 0; pre <= 40; pre += 20) {
				spec(kind, Ls[i], a, 64);
				c_init(kind, &c);
				c_inj(kind, &c, data, pre);
				c_inj(kind, &c, data + pre, Ls[i] - pre);
				c_flip(kind, &c);
				memset(b, 0, 64);
				c_ext(kind, &c, b, 64);
				r->cases++;
				if (memcmp(a, b, 64))
					BAD("input of %d bytes (kind %d, first piece %d) is not absorbed completely", Ls[i], kind, pre);
			}
	}
}
