/* Exhaustive comparison of the coefficient codecs with a bit-level specification. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "inner.h"
#include "ref.h"

typedef struct { long cases, accepted, bad; char msg[400]; } res;
enum { COMP, COMP16, MODQ, MODQ16, TRIM8, TRIM16 };

static size_t enc(int k, int bits, int logn, const int32_t *x, uint8_t *out, size_t max)
{
	int16_t a[1024];
	uint16_t b[1024];
	int8_t c[1024];
	for (int i = 0; i < 1 << logn; i++)
		a[i] = (int16_t)x[i], b[i] = (uint16_t)x[i], c[i] = (int8_t)x[i];
	switch (k) {
	case COMP: return Zf(comp_encode)(out, max, a, logn);
	case COMP16: return Zf(comp_encode16)(out, max, a, logn);
	case MODQ: return Zf(modq_encode)(out, max, b, logn);
	case MODQ16: return Zf(modq_encode16)(out, max, b, logn);
	case TRIM8: return Zf(trim_i8_encode)(out, max, c, logn, bits);
	default: return Zf(trim_i16_encode)(out, max, a, logn, bits);
	}
}
static size_t dec(int k, int bits, int logn, int32_t *x, const uint8_t *in, size_t len)
{
	int16_t a[1024];
	uint16_t b[1024];
	int8_t c[1024];
	size_t r;
	switch (k) {
	case COMP: r = Zf(comp_decode)(a, logn, in, len); break;
	case COMP16: r = Zf(comp_decode16)(a, logn, in, len); break;
	case MODQ: r = Zf(modq_decode)(b, logn, in, len); break;
	case MODQ16: r = Zf(modq_decode16)(b, logn, in, len); break;
	case TRIM8: r = Zf(trim_i8_decode)(c, logn, bits, in, len); break;
	default: r = Zf(trim_i16_decode)(a, logn, bits, in, len);
	}
	for (int i = 0; r && i < 1 << logn; i++)
		x[i] = (k == MODQ || k == MODQ16) ? b[i] : k == TRIM8 ? c[i] : a[i];
	return r;
}

/* specification: is the vector encodable, and its only encoding */
static int width(int k, int bits) { return k == MODQ ? 14 : (k == MODQ16 || k == COMP16) ? 16 : bits; }
static long spec_enc(int k, int bits, int logn, const int32_t *x, uint8_t *out)
{
	unsigned n = 1u << logn;
	if (k == COMP)
		return ref_comp_enc(x, n, out, 3 * n + 8);
	int w = width(k, bits);
	size_t p = 0;
	memset(out, 0, n * 2 + 8);
	for (unsigned i = 0; i < n; i++) {
		int32_t v = x[i], lim = (1 << (bits - 1)) - 1;
		if (k == MODQ || k == MODQ16) {
			if (v < 0 || v >= RQ)
				return -1;
		} else if (k == COMP16) {
			if (v <= -RQ || v >= RQ)
				return -1;
			if (v < 0)
				v += RQ;
		} else if (v < -lim || v > lim)
			return -1;
		for (int b = w - 1; b >= 0; b--, p++)
			out[p >> 3] |= (uint8_t)(((v >> b) & 1) << (7 - (p & 7)));
	}
	return (long)((p + 7) / 8);
}
static long spec_dec(int k, int bits, int logn, int32_t *x, const uint8_t *in, size_t len)
{
	unsigned n = 1u << logn;
	if (k == COMP)
		return ref_comp_dec(x, n, in, len);
	int w = width(k, bits);
	long r = ref_fix_dec(x, n, w, in, len);
	if (r < 0)
		return -1;
	for (unsigned i = 0; i < n; i++) {
		if (k == TRIM8 || k == TRIM16) {
			int32_t lim = 1 << (bits - 1);
			if (x[i] == lim)
				return -1;
			if (x[i] > lim)
				x[i] -= 2 * lim;
		} else {
			if (x[i] >= RQ)
				return -1;
			if (k == COMP16 && x[i] > RQ / 2)
				x[i] -= RQ;
		}
	}
	return r;
}

static void bad(res *r, const char *what, int k, int bits, int logn, const char *extra)
{
	if (!r->bad++)
		snprintf(r->msg, sizeof r->msg, "codec %d bits %d degree 2^%d: %s (%s)", k, bits, logn, what, extra);
}

static int cmp_dec(int k, int bits, int logn, const uint8_t *in, size_t len, res *r)
{
	int32_t a[1024], b[1024];
	long want = spec_dec(k, bits, logn, b, in, len);
	size_t got = dec(k, bits, logn, a, in, len);
	r->cases++;
	if (want > 0)
		r->accepted++;
	if ((want < 0 ? 0 : (size_t)want) != got || (want > 0 && memcmp(a, b, sizeof(int32_t) << logn))) {
		char e[64];
		snprintf(e, sizeof e, "len %zu got %zu want %ld bytes %02x%02x%02x%02x", len, got, want, len > 0 ? in[0] : 0, len > 1 ? in[1] : 0, len > 2 ? in[2] : 0, len > 3 ? in[3] : 0);
		bad(r, want < 0 ? "a string that encodes nothing was decoded" : got ? "decoded to something else" : "a valid encoding was refused", k, bits, logn, e);
		return 1;
	}
	return 0;
}
/* encode x, compare with the specification, decode it back, then every trailing-bit pattern and every shorter length is judged */
static int cmp_enc(int k, int bits, int logn, const int32_t *x, int deep, res *r)
{
	uint8_t a[3 * 1024 + 16], b[3 * 1024 + 16];
	char e[64];
	long want = spec_enc(k, bits, logn, x, b);
	snprintf(e, sizeof e, "first coefficients %d %d", x[0], x[1]);
	memset(a, 0xC3, sizeof a);
	size_t got = enc(k, bits, logn, x, a, want > 0 ? (size_t)want : sizeof a);
	r->cases++;
	if ((want < 0 ? 0 : (size_t)want) != got || (want > 0 && memcmp(a, b, want))) {
		bad(r, want < 0 ? "an out-of-range vector was encoded" : got ? "encoded to something else" : "an encodable vector was refused", k, bits, logn, e);
		return 1;
	}
	if (want <= 0)
		return 0;
	r->accepted++;
	for (int i = 0; i < 8; i++)
		if (a[want + i] != 0xC3) {
			bad(r, "encoder wrote past its result", k, bits, logn, e);
			return 1;
		}
	if (deep) {
		if (enc(k, bits, logn, x, NULL, 0) != (size_t)want)
			bad(r, "size query differs from the encoded size", k, bits, logn, e);
		if (enc(k, bits, logn, x, a, want - 1) != 0)
			bad(r, "encoded into a buffer that is too small", k, bits, logn, e);
	}
	if (k == COMP16) {
		int32_t y[1024];
		for (int i = 0; i < 1 << logn; i++) /* representative chosen by the decoder is the centred one */
			y[i] = x[i];
	}
	if (cmp_dec(k, bits, logn, b, want, r))
		return 1;
	if (deep) {
		uint8_t *ex = malloc(want + 4);
		memcpy(ex, b, want);
		ex[want] = 0x80;
		cmp_dec(k, bits, logn, ex, want + 1, r);
		for (long L = want - 1; L >= 0 && L > want - 4; L--)
			cmp_dec(k, bits, logn, ex, L, r);
		cmp_dec(k, bits, logn, ex, 0, r);
		for (int m = 1; m < 256; m++) {
			ex[want - 1] = b[want - 1] ^ (uint8_t)m;
			cmp_dec(k, bits, logn, ex, want, r);
		}
		free(ex);
	}
	return 0;
}

/* all strings of 'len' bytes whose first byte is in [lo,hi) */
void h_all_strings(int k, int bits, int logn, int len, int lo, int hi, res *r)
{
	memset(r, 0, sizeof *r);
	for (int f = lo; f < hi; f++) {
		uint64_t n = 1ull << (8 * (len - 1));
		for (uint64_t v = 0; v < n && r->bad < 5; v++) {
			uint8_t in[8];
			in[0] = (uint8_t)f;
			for (int i = 1; i < len; i++)
				in[i] = (uint8_t)(v >> (8 * (len - 1 - i)));
			cmp_dec(k, bits, logn, in, len, r);
		}
	}
}
/* all pairs of coefficients at degree 2 */
void h_all_pairs(int k, int bits, int lo, int hi, int lim, res *r)
{
	memset(r, 0, sizeof *r);
	for (int a = lo; a < hi; a++)
		for (int b = -lim; b <= lim && r->bad < 5; b++) {
			int32_t x[2] = {a, b};
			cmp_enc(k, bits, 1, x, 0, r);
		}
}
/* at degree 2^logn: every position in [plo,phi) takes every value in [vlo,vhi]; the others hold 'fill' */
void h_grid(int k, int bits, int logn, int plo, int phi, int pstep, int vlo, int vhi, int fill, int deep, res *r)
{
	int32_t x[1024];
	memset(r, 0, sizeof *r);
	for (int i = 0; i < 1 << logn; i++)
		x[i] = fill;
	for (int p = plo; p < phi; p += pstep) {
		for (int v = vlo; v <= vhi && r->bad < 5; v++) {
			x[p] = v;
			cmp_enc(k, bits, logn, x, deep, r);
		}
		x[p] = fill;
	}
}
/* fixed-width codecs: every raw field value at every position (including the forbidden ones) */
void h_fields(int k, int bits, int logn, int plo, int phi, int pstep, res *r)
{
	int w = width(k, bits), n = 1 << logn;
	uint8_t in[2100];
	memset(r, 0, sizeof *r);
	for (int p = plo; p < phi; p += pstep)
		for (int v = 0; v < 1 << w && r->bad < 5; v++) {
			memset(in, 0, sizeof in);
			for (int b = 0; b < w; b++)
				if ((v >> (w - 1 - b)) & 1) {
					size_t q = (size_t)p * w + b;
					in[q >> 3] |= (uint8_t)(0x80 >> (q & 7));
				}
			cmp_dec(k, bits, logn, in, (n * w + 7) / 8, r);
		}
}
/* compressed strings written bit by bit: the field at every position in [plo,phi) takes each sign, each run of 0..zmax zero
   bits and each of eight low parts (over-long runs and minus zero included); the other fields hold 'fill'; the last byte is
   padded with zeros, and then with each single one bit when 'deep' */
void h_comp_raw(int k, int bits, int logn, int plo, int phi, int pstep, int zmax, int fill, int deep, res *r)
{
	static const int LOW[] = {0, 1, 2, 63, 64, 126, 127, 85};
	int n = 1 << logn;
	uint8_t in[8 * 1024];
	memset(r, 0, sizeof *r);
	for (int p = plo; p < phi; p += pstep)
		for (int s = 0; s < 2; s++)
			for (int z = 0; z <= zmax; z++)
				for (unsigned l = 0; l < sizeof LOW / sizeof *LOW && r->bad < 5; l++) {
					size_t q = 0;
					memset(in, 0, sizeof in);
					for (int i = 0; i < n; i++) {
						int m = fill < 0 ? -fill : fill, sg = i == p ? s : fill < 0, lo = i == p ? LOW[l] : m & 127, nz = i == p ? z : m >> 7;
						for (int b = 7; b >= 0; b--, q++)
							in[q >> 3] |= (uint8_t)((((sg << 7 | lo) >> b) & 1) << (7 - (q & 7)));
						q += nz;
						in[q >> 3] |= (uint8_t)(0x80 >> (q & 7));
						q++;
					}
					cmp_dec(k, bits, logn, in, (q + 7) / 8, r);
					cmp_dec(k, bits, logn, in, (q + 7) / 8 + 1, r);
					if (deep)
						for (; q & 7; q++) {
							in[q >> 3] |= (uint8_t)(0x80 >> (q & 7));
							cmp_dec(k, bits, logn, in, (q + 8) / 8, r);
							in[q >> 3] &= (uint8_t)~(0x80 >> (q & 7));
						}
				}
}
int h_fg_bits(int logn) { return Zf(max_fg_bits)[logn]; }
int h_FG_bits(int logn) { return Zf(max_FG_bits)[logn]; }
