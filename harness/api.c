/* Drives the public signature API of the tree under test; verdict oracle is ref.c. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "inner.h"
#include "api.h"
#include "ref.h"

void randombytes_init(unsigned char *entropy_input, unsigned char *personalization_string, int security_strength);
int randombytes(unsigned char *x, unsigned long long xlen);

#ifdef ETHFALCON
#define XOF 1
#else
#define XOF 0
#endif

typedef struct { long cases, accepted, bad; char msg[400]; } res;

static int pklen(int scheme) { return scheme ? ZKNOX_CRYPTO_PUBLICKEYBYTES : CRYPTO_PUBLICKEYBYTES; }

void h_seed(const uint8_t *seed48) { uint8_t s[48]; memcpy(s, seed48, 48); randombytes_init(s, NULL, 256); }

int h_keypair(int scheme, const uint8_t *seed48, uint8_t *pk, uint8_t *sk)
{
	int r;
	if (seed48)
		h_seed(seed48);
	r = scheme == 0 ? crypto_sign_keypair(pk, sk) : zknox_crypto_sign_keypair(pk, sk);
	if (scheme == 2 && r == 0)
		r = zknox_pk_epervier(pk);
	return r;
}
int h_sign(int scheme, uint8_t *sm, unsigned long long *smlen, const uint8_t *m, unsigned long long mlen, const uint8_t *sk)
{
	return scheme == 0 ? crypto_sign(sm, smlen, m, mlen, sk)
		: scheme == 1 ? zknox_crypto_sign(sm, smlen, m, mlen, sk)
		: zknox_crypto_sign_epervier(sm, smlen, m, mlen, sk);
}
int h_open(int scheme, uint8_t *m, unsigned long long *mlen, const uint8_t *sm, unsigned long long smlen, const uint8_t *pk)
{
	return scheme == 0 ? crypto_sign_open(m, mlen, sm, smlen, pk)
		: scheme == 1 ? zknox_crypto_sign_open(m, mlen, sm, smlen, pk)
		: zknox_crypto_sign_open_epervier(m, mlen, sm, smlen, pk);
}
int h_ref_open(int scheme, const uint8_t *sm, size_t smlen, const uint8_t *pk, size_t *ml)
{
	return scheme == 0 ? ref_open_nist(XOF, sm, smlen, pk, ml)
		: scheme == 1 ? ref_open_zknox(XOF, sm, smlen, pk, ml)
		: ref_open_epervier(sm, smlen, pk, ml);
}

#define SENT 0xDEADBEEFCAFEF00DULL
/* one judged case; returns 0 when the tree agrees with the specification */
int h_judge(int scheme, const uint8_t *sm, size_t smlen, const uint8_t *pk, uint8_t *scratch, res *r, const char *label)
{
	unsigned long long ml = SENT;
	size_t rl = 0;
	memset(scratch, 0xA5, smlen + 64);
	int got = h_open(scheme, scratch, &ml, sm, smlen, pk) == 0;
	int want = h_ref_open(scheme, sm, smlen, pk, &rl);
	const char *why = NULL;
	r->cases++;
	r->accepted += got;
	if (got != want)
		why = got ? "accepted, must be rejected" : "rejected, must be accepted";
	else if (got) {
		if (ml != rl || memcmp(scratch, sm + 42, rl))
			why = "accepted with a wrong message";
		else
			for (size_t i = rl; i < smlen + 64 && !why; i++)
				if (scratch[i] != 0xA5)
					why = "wrote past the message";
	} else {
		if (ml != SENT)
			why = "rejected but reported a message length";
		for (size_t i = 0; i < smlen + 64 && !why; i++)
			if (scratch[i] != 0xA5)
				why = "rejected but released output";
	}
	if (why) {
		if (!r->bad++)
			snprintf(r->msg, sizeof r->msg, "%s: %s", label, why);
		return 1;
	}
	return 0;
}

/* which: 0 signed message, 1 public key.  mode 0: each single-bit flip; mode 1: each other byte value */
void h_tamper(int scheme, const uint8_t *pk0, const uint8_t *sm0, size_t smlen, int which, size_t lo, size_t hi, int mode, res *r)
{
	uint8_t *sm = malloc(smlen + 1), *scratch = malloc(smlen + 128), pk[1100];
	char lab[100];
	memset(r, 0, sizeof *r);
	memcpy(sm, sm0, smlen);
	memcpy(pk, pk0, pklen(scheme));
	uint8_t *t = which ? pk : sm;
	for (size_t i = lo; i < hi; i++) {
		uint8_t o = t[i];
		for (int v = 0; v < (mode ? 256 : 8); v++) {
			t[i] = mode ? (uint8_t)v : (uint8_t)(o ^ (1 << v));
			if (t[i] == o)
				continue;
			snprintf(lab, sizeof lab, "%s byte %zu: %02x->%02x", which ? "key" : "signed message", i, o, t[i]);
			h_judge(scheme, sm, smlen, pk, scratch, r, lab);
		}
		t[i] = o;
	}
	free(sm);
	free(scratch);
}

/* every declared signature length */
void h_lenfield(int scheme, const uint8_t *pk, const uint8_t *sm0, size_t smlen, int lo, int hi, res *r)
{
	uint8_t *sm = malloc(smlen + 1), *scratch = malloc(smlen + 128);
	char lab[100];
	memset(r, 0, sizeof *r);
	memcpy(sm, sm0, smlen);
	for (int v = lo; v < hi; v++) {
		sm[0] = (uint8_t)(v >> 8);
		sm[1] = (uint8_t)v;
		snprintf(lab, sizeof lab, "declared signature length %d", v);
		h_judge(scheme, sm, smlen, pk, scratch, r, lab);
	}
	free(sm);
	free(scratch);
}

/* 'del' bytes of the signed message removed at 'at', 'ins' copies of 'filler' put there */
void h_splice(int scheme, const uint8_t *pk, const uint8_t *sm0, size_t smlen, size_t at, size_t del, size_t ins, int filler, res *r)
{
	size_t n = smlen - del + ins;
	uint8_t *sm = malloc(n + 1), *scratch = malloc(n + 128);
	char lab[100];
	memset(r, 0, sizeof *r);
	memcpy(sm, sm0, at);
	memset(sm + at, filler, ins);
	memcpy(sm + at + ins, sm0 + at + del, smlen - at - del);
	snprintf(lab, sizeof lab, "signed message of %zu bytes: %zu bytes removed at %zu, %zu put", smlen, del, at, ins);
	h_judge(scheme, sm, n, pk, scratch, r, lab);
	free(sm);
	free(scratch);
}

/* truncations and extensions: keep the header, cut at every length / append up to 'ext' bytes of every constant filler;
   adjust=1 also rewrites the declared signature length so that the message part keeps its length */
void h_resize(int scheme, const uint8_t *pk, const uint8_t *sm0, size_t smlen, size_t lo, size_t hi, int adjust, int filler, res *r)
{
	uint8_t *scratch = malloc(hi + smlen + 256);
	char lab[100];
	size_t sl0 = sm0[0] * 256u + sm0[1], ml = smlen - 42 - sl0;
	memset(r, 0, sizeof *r);
	for (size_t L = lo; L < hi; L++) {
		/* exact-size buffer so that any out-of-bounds read is visible to a sanitizer */
		uint8_t *sm = malloc(L ? L : 1);
		for (size_t i = 0; i < L; i++)
			sm[i] = i < smlen ? sm0[i] : (uint8_t)filler;
		if (adjust && L >= 42 + ml) {
			size_t sl = L - 42 - ml;
			sm[0] = (uint8_t)(sl >> 8);
			sm[1] = (uint8_t)sl;
		}
		snprintf(lab, sizeof lab, "length %zu instead of %zu, declared length %s, filler %d", L, smlen, adjust ? "adjusted" : "kept", filler);
		h_judge(scheme, sm, L, pk, scratch, r, lab);
		free(sm);
	}
	free(scratch);
}

/* Honest signing of messages of every length lo..hi-1 (step), checked three ways.
   alias: 0 separate buffers, 1.. message placed inside the output buffer at offset (alias-1); open into the same buffer */
void h_complete(int scheme, const uint8_t *pk, const uint8_t *sk, long lo, long hi, long step, int alias, int pat, res *r)
{
	static const long maxov[3] = {CRYPTO_BYTES, ZKNOX_CRYPTO_BYTES, ZKNOX_CRYPTO_BYTES_EPERVIER};
	memset(r, 0, sizeof *r);
	for (long L = lo; L < hi; L += step) {
		uint8_t *m = malloc(L + 1), *buf = malloc(L + 2400 + 64), *out = malloc(L + 2400);
		unsigned long long sl = SENT, ml = SENT;
		size_t rl = 0;
		const char *why = NULL;
		uint32_t x = 12345u + (uint32_t)L;
		for (long i = 0; i < L; i++) {
			x = x * 1664525u + 1013904223u;
			m[i] = pat == 0 ? (uint8_t)(x >> 24) : pat == 1 ? 0 : 0xFF;
		}
		memset(buf, 0x5A, L + 2400 + 64);
		const uint8_t *src = m;
		if (alias) {
			memcpy(buf + alias - 1, m, L);
			src = buf + alias - 1;
		}
		r->cases++;
		if (h_sign(scheme, buf, &sl, src, L, sk) != 0)
			why = "signing failed";
		else if (sl < (unsigned long long)L + 42 + 1 || sl > (unsigned long long)(L + maxov[scheme] + (scheme == 2 ? 0 : 0)))
			why = "signed length out of the advertised range";
		else if (memcmp(buf + 42, m, L))
			why = "message is not carried unchanged";
		else if (!h_ref_open(scheme, buf, sl, pk, &rl) || rl != (size_t)L)
			why = "signature is not valid for the specification";
		else {
			for (int k = 0; k < 64 && !alias; k++)
				if (buf[sl + k] != 0x5A)
					why = "wrote past the reported length";
			uint8_t *dst = alias ? buf + (alias - 1) : out;
			if (h_open(scheme, dst, &ml, buf, sl, pk) != 0)
				why = "rejected by the verifier";
			else if (ml != (unsigned long long)L || memcmp(dst, m, L))
				why = "verifier returned another message";
		}
		if (why && !r->bad++)
			snprintf(r->msg, sizeof r->msg, "message length %ld, placement %d, content %d: %s", L, alias, pat, why);
		r->accepted += !why;
		free(m);
		free(buf);
		free(out);
	}
}

/* Forge a key/signature pair with chosen (s1,s2): h = (c-s1)/s2.  Returns 0 when s2 is not invertible. */
static void put(uint8_t *o, const int32_t *x, int bits)
{
	size_t p = 0;
	memset(o, 0, 512 * bits / 8);
	for (int i = 0; i < 512; i++) {
		int32_t v = x[i] < 0 ? x[i] + RQ : x[i];
		for (int k = bits - 1; k >= 0; k--, p++)
			o[p >> 3] |= (uint8_t)(((v >> k) & 1) << (7 - (p & 7)));
	}
}
long h_forge(int scheme, const int32_t *s1, const int32_t *s2, const uint8_t *m, size_t mlen, const uint8_t *nonce, uint8_t *pk, uint8_t *sm)
{
	uint16_t c[512];
	int32_t t[512], h[512];
	long sl;
	memcpy(sm + 2, nonce, 40);
	memcpy(sm + 42, m, mlen);
	ref_h2p(scheme == 2 ? 0 : XOF, sm + 2, 40 + mlen, c, 512);
	for (int i = 0; i < 512; i++)
		t[i] = (int32_t)c[i] - s1[i];
	if (!ref_div(t, s2, h, 512))
		return 0;
	pk[0] = 9;
	uint8_t *e = sm + 42 + mlen;
	if (scheme == 0) {
		put(pk + 1, h, 14);
		e[0] = 0x29;
		sl = ref_comp_enc(s2, 512, e + 1, 1200);
		if (sl < 0)
			return -1;
		sl++;
	} else {
		ref_ntt(h, 512);
		put(pk + 1, h, 16);
		e[0] = 0x29;
		sl = 1025;
		if (scheme == 2) {
			put(e + 1, s1, 16);
			e += 1025;
			e[0] = 0x29;
			sl += 1027;
		}
		put(e + 1, s2, 16);
		if (scheme == 2) {
			uint32_t hint = ref_hint(s2);
			e[1025] = (uint8_t)(hint >> 8);
			e[1026] = (uint8_t)hint;
		}
	}
	sm[0] = (uint8_t)(sl >> 8);
	sm[1] = (uint8_t)sl;
	return 42 + (long)mlen + sl;
}

/* a pair that verifies for the hash of only t bytes after the length field, placed right after them: to be judged by the format alone.
   pad: bytes appended after the signature, counted in the declared length or not */
void h_forge_cut(int scheme, int lo, int hi, const int32_t *s1, const int32_t *s2, res *r)
{
	uint8_t pk[1100], z[64] = {0}, *sm = malloc(4000), *t = malloc(4200), *scratch = malloc(4400);
	char lab[160];
	memset(r, 0, sizeof *r);
	for (int n = lo; n < hi; n++) {
		/* forge() hashes 40 + mlen bytes; shorter spans are hashed by hand */
		uint16_t c[512];
		int32_t d[512], h[512];
		long L = h_forge(scheme, s1, s2, z, 0, z, pk, sm);
		if (L < 0) {
			snprintf(r->msg, sizeof r->msg, "no forgery"), r->bad++;
			break;
		}
		long sl = L - 42;
		for (int i = 0; i < n; i++)
			t[2 + i] = (uint8_t)(i * 5 + 3);
		ref_h2p(scheme == 2 ? 0 : XOF, t + 2, n, c, 512);
		for (int i = 0; i < 512; i++)
			d[i] = (int32_t)c[i] - s1[i];
		if (!ref_div(d, s2, h, 512))
			continue;
		if (scheme == 0)
			put(pk + 1, h, 14);
		else
			ref_ntt(h, 512), put(pk + 1, h, 16);
		memcpy(t + 2 + n, sm + 42, sl);
		for (int v = -2; v < 3; v++) {
			t[0] = (uint8_t)((sl + v) >> 8), t[1] = (uint8_t)(sl + v);
			memset(t + 2 + n + sl, 0, 4);
			for (int pad = 0; pad < 3; pad++) {
				uint8_t *u = malloc(2 + n + sl + pad);
				memcpy(u, t, 2 + n + sl + pad);
				snprintf(lab, sizeof lab, "signature for the hash of %d bytes, declared length off by %d, %d bytes behind it", n, v, pad);
				h_judge(scheme, u, 2 + n + sl + pad, pk, scratch, r, lab);
				free(u);
			}
		}
	}
	free(sm), free(t), free(scratch);
}

/* recovery scheme: short signatures whose s2 has no inverse (zero in one slot), with a key that fits everywhere else */
void h_forge_noinv(int lo, int hi, res *r)
{
	uint8_t pk[1100], *sm = malloc(4000), *scratch = malloc(4400), z[64] = {0};
	int32_t root[512] = {0}, one[512] = {1};
	char lab[160];
	memset(r, 0, sizeof *r);
	root[1] = 1;
	ref_ntt(root, 512);
	for (int i = lo; i < hi; i++) {
		long best = 1L << 60, A = 0, B = 0;
		int32_t s1[512], s2[512] = {0}, t[512], v[512], h[512];
		uint16_t c[512];
		for (long b = 1; b < 260; b++) {
			long a = (RQ - b * root[i] % RQ) % RQ;
			a = a > RQ / 2 ? a - RQ : a;
			if (a * a + b * b < best)
				best = a * a + b * b, A = a, B = b;
		}
		for (int u = 0; u < 512; u++)
			s1[u] = (u * 7 + i) % 61 - 30;
		s2[0] = (int32_t)A, s2[1] = (int32_t)B;
		z[0] = (uint8_t)i;
		long L = h_forge(2, s1, one, z, 1, z + 8, pk, sm);
		uint8_t *e = sm + 43 + 1025;
		put(e + 1, s2, 16);
		e[1025] = e[1026] = 0;
		ref_h2p(0, sm + 2, 41, c, 512);
		for (int u = 0; u < 512; u++)
			t[u] = ((int32_t)c[u] - s1[u] + RQ) % RQ, v[u] = (s2[u] + RQ) % RQ;
		ref_ntt(t, 512), ref_ntt(v, 512);
		int32_t inv[512];
		for (int u = 0; u < 512; u++) {
			int64_t b = v[u], x = 1;
			for (int k = RQ - 2; k; k >>= 1, b = b * b % RQ)
				if (k & 1)
					x = x * b % RQ;
			inv[u] = (int32_t)(v[u] ? x : 0);
			h[u] = (int32_t)((int64_t)t[u] * inv[u] % RQ);
		}
		for (int w = 0; w < 4; w++) {
			static const int hints[4] = {0, 1, 2, 12288};
			for (int q = 0; q < 4; q++) {
				h[i] = w == 0 ? 0 : w == 1 ? 1 : w == 2 ? t[i] : RQ - 1;
				put(pk + 1, h, 16);
				e[1025] = (uint8_t)(hints[q] >> 8), e[1026] = (uint8_t)hints[q];
				snprintf(lab, sizeof lab, "s2 = %ld%+ldX without inverse (slot %d), key value %d there, hint %d", A, B, i, (int)h[i], hints[q]);
				h_judge(2, sm, L, pk, scratch, r, lab);
			}
		}
	}
	free(sm), free(scratch);
}

/* judge one forged pair whose verdict is known from the norm */
int h_forge_judge(int scheme, const int32_t *s1, const int32_t *s2, const uint8_t *m, size_t mlen, const uint8_t *nonce, int want, res *r, const char *label)
{
	uint8_t pk[1100], *sm = malloc(mlen + 2600), *scratch = malloc(mlen + 2800);
	long L = h_forge(scheme, s1, s2, m, mlen, nonce, pk, sm);
	int rc = -1;
	if (L > 0) {
		size_t rl;
		int w = h_ref_open(scheme, sm, L, pk, &rl);
		if (w != want) {
			rc = -2; /* harness inconsistency */
		} else
			rc = h_judge(scheme, sm, L, pk, scratch, r, label);
	}
	free(sm);
	free(scratch);
	return rc;
}
