/* Native floating-point emulation and Fourier arithmetic against the hardware and quad precision. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <quadmath.h>
#include "inner.h"
typedef struct { long cases, accepted, bad; char msg[400]; } res;
#define BAD(...) do { if (!r->bad++) snprintf(r->msg, sizeof r->msg, __VA_ARGS__); } while (0)
#define M52 (((uint64_t)1 << 52) - 1)
static double D(fpr x) { double d; memcpy(&d, &x, 8); return d; }
static fpr B(double d) { fpr x; memcpy(&x, &d, 8); return x; }
static uint64_t mant[70000];
static int nm;
static void addm(uint64_t m) { mant[nm++] = m & M52; }
static int cmp(const void *a, const void *b) { uint64_t x = *(uint64_t *)a, y = *(uint64_t *)b; return x < y ? -1 : x > y; }
/* boundary mantissas: few bits set, few bits clear, every run of ones; lvl adds denser classes */
static void mants(int lvl)
{
	nm = 0;
	addm(0);
	addm(M52);
	for (int i = 0; i < 52; i++) {
		uint64_t b = (uint64_t)1 << i;
		addm(b), addm(b - 1), addm(M52 ^ b), addm(~(b - 1));
		if (lvl > 0)
			addm(b + 1), addm(b - 2), addm(~(b - 1) + 1), addm(~b - 1);
		if (lvl > 1)
			for (int j = 0; j < i; j++) {
				uint64_t c = (uint64_t)1 << j;
				addm(b | c), addm(~(b | c)), addm(b - c), addm(~(b - c)), addm(b | (c - 1));
			}
	}
	addm(0x5555555555555), addm(0xAAAAAAAAAAAAA), addm(0x6A09E667F3BCD), addm(0x921FB54442D18), addm(0x123456789ABCD);
	qsort(mant, nm, 8, cmp);
	int k = 0;
	for (int i = 0; i < nm; i++)
		if (!k || mant[i] != mant[k - 1])
			mant[k++] = mant[i];
	nm = k;
}
static fpr mk(int s, int e, uint64_t m) { return ((uint64_t)s << 63) | ((uint64_t)(e + 1023) << 52) | m; }
/* 1 if got is what the module promises for the hardware result h: equal bits; magnitudes below the normal range become zero */
static int same(fpr got, double h)
{
	double a = fabs(h);
	if (a != 0 && a <= 2.2250738585072014e-308)
		return (got << 1) == 0 || got == B(h);
	return got == B(h);
}
int h_mants(int lvl) { mants(lvl); return nm; }

void h_add(int lvl, int lo, int hi, int step, res *r)
{
	memset(r, 0, sizeof *r);
	mants(lvl);
	for (int i = lo; i < hi && i < nm; i++)
		for (int j = 0; j < nm; j++)
			for (int d = 0; d <= 66; d += (step > 1 && d > 3 && d < 50) ? step : 1)
				for (int s = 0; s < 2; s++) {
					fpr x = mk(0, 5, mant[i]), y = mk(s, 5 - d, mant[j]);
					r->cases++;
					if (!same(fpr_add(x, y), D(x) + D(y)) || !same(fpr_add(y, x), D(x) + D(y)))
						BAD("add %a %a gives %a", D(x), D(y), D(fpr_add(x, y)));
					x ^= (uint64_t)1 << 63;
					if (!same(fpr_sub(x, y), D(x) - D(y)))
						BAD("sub %a %a gives %a", D(x), D(y), D(fpr_sub(x, y)));
				}
}
void h_mul(int lvl, int lo, int hi, res *r)
{
	memset(r, 0, sizeof *r);
	mants(lvl);
	for (int i = lo; i < hi && i < nm; i++)
		for (int j = 0; j < nm; j++) {
			fpr x = mk((i ^ j) & 1, i % 7 - 3, mant[i]), y = mk(j >> 1 & 1, j % 11 - 5, mant[j]);
			r->cases++;
			if (!same(fpr_mul(x, y), D(x) * D(y)))
				BAD("mul %a %a gives %a", D(x), D(y), D(fpr_mul(x, y)));
		}
}
void h_div(int lvl, int lo, int hi, res *r)
{
	memset(r, 0, sizeof *r);
	mants(lvl);
	for (int i = lo; i < hi && i < nm; i++) {
		for (int j = 0; j < nm; j++) {
			fpr x = mk((i ^ j) & 1, i % 7 - 3, mant[i]), y = mk(j >> 1 & 1, j % 11 - 5, mant[j]);
			r->cases++;
			if (!same(fpr_div(x, y), D(x) / D(y)))
				BAD("div %a %a gives %a", D(x), D(y), D(fpr_div(x, y)));
		}
		fpr x = mk(i & 1, i % 40 - 20, mant[i]);
		if (!same(fpr_inv(x), 1 / D(x)) || !same(fpr_sqr(x), D(x) * D(x)))
			BAD("inv or square of %a", D(x));
	}
}
void h_sqrt(int hi0, int hi1, res *r)
{
	memset(r, 0, sizeof *r);
	for (int h = hi0; h < hi1; h++) /* every value of the top 16 mantissa bits, low part at its edges */
		for (int p = 0; p < 2; p++)
			for (int l = 0; l < 5; l++) {
				static const uint64_t low[] = {0, 1, 0xFFFFFFFFF, 0xFFFFFFFFE, 0x800000000};
				fpr x = mk(0, p + 2 * (h % 9 - 4), ((uint64_t)h << 36) | low[l]);
				r->cases++;
				if (!same(fpr_sqrt(x), sqrt(D(x))))
					BAD("sqrt %a gives %a", D(x), D(fpr_sqrt(x)));
			}
	for (int i = 0; i < 2000; i++) { /* perfect squares and their neighbours */
		fpr x = B((double)(hi0 + i) * (hi0 + i));
		for (int d = -1; d < 2; d++)
			if (x + d && hi0 + i && !same(fpr_sqrt(x + d), sqrt(D(x + d))))
				BAD("sqrt %a", D(x + d));
	}
}
static void round_one(fpr x, res *r)
{
	double d = D(x);
	if (fabs(d) >= 9.223372036854775e18)
		return;
	r->cases++;
	if (fpr_rint(x) != llrint(d))
		BAD("rint %a gives %lld", d, (long long)fpr_rint(x));
	if (fpr_trunc(x) != (int64_t)d)
		BAD("trunc %a gives %lld", d, (long long)fpr_trunc(x));
	if (!(d == 0 && x >> 63) && fpr_floor(x) != (int64_t)floor(d))
		BAD("floor %a gives %lld", d, (long long)fpr_floor(x));
}
void h_round(int lvl, int e0, int e1, res *r)
{
	memset(r, 0, sizeof *r);
	mants(lvl);
	round_one(0, r);
	for (int e = e0; e < e1; e++)
		for (int s = 0; s < 2; s++)
			for (int i = 0; i < nm; i++)
				for (int d = -1; d < 2; d++)
					round_one(mk(s, e, (mant[i] + d) & M52), r);
	/* every multiple of 1/8 in a range, with its neighbours */
	for (int k = -40000 + e0 * 100; k < -40000 + e1 * 100 + 40000; k++)
		for (int d = -1; d < 2; d++)
			if (k)
				round_one(B(k / 8.0) + d, r);
}
void h_unary(int lvl, res *r)
{
	memset(r, 0, sizeof *r);
	mants(lvl);
	for (int e = -1000; e <= 1000; e += e > -70 && e < 70 ? 1 : 37)
		for (int s = 0; s < 2; s++)
			for (int i = 0; i < nm; i += 3) {
				fpr x = mk(s, e, mant[i]);
				r->cases++;
				if (D(fpr_neg(x)) != -D(x) || D(fpr_half(x)) != D(x) / 2 || D(fpr_double(x)) != D(x) * 2 || !same(fpr_sub(x, x), 0.0))
					BAD("neg, half, double or x-x of %a", D(x));
				if (D(fpr_add(x, fpr_zero)) != D(x) || D(fpr_add(fpr_zero, x)) != D(x) || D(fpr_mul(x, fpr_zero)) != 0 || D(fpr_mul(x, fpr_one)) != D(x)
					|| D(fpr_div(fpr_zero, x)) != 0 || D(fpr_div(x, fpr_one)) != D(x) || D(fpr_add(x, fpr_neg(fpr_zero))) != D(x))
					BAD("operation of %a with 0 or 1", D(x));
			}
	if (fpr_half(0) != 0 || fpr_double(0) != 0 || fpr_sqrt(0) != 0 || fpr_rint(0) != 0 || fpr_rint(fpr_neg(0)) != 0 || fpr_trunc(fpr_neg(0)) != 0 || fpr_add(0, 0) != 0 || fpr_add(0, fpr_neg(0)) != 0)
		BAD("zero operands");
}
void h_lt(int lvl, int lo, int hi, res *r)
{
	memset(r, 0, sizeof *r);
	mants(lvl);
	for (int i = lo; i < hi && i < nm; i++)
		for (int j = 0; j < nm; j++)
			for (int s = 0; s < 4; s++)
				for (int d = -1; d < 2; d++) {
					fpr x = mk(s & 1, 0, mant[i]), y = mk(s >> 1, d, mant[j]);
					r->cases++;
					if (!!fpr_lt(x, y) != (D(x) < D(y)))
						BAD("%a < %a is wrong", D(x), D(y));
				}
}
void h_int(int a0, int a1, res *r)
{
	memset(r, 0, sizeof *r);
	for (int a = a0; a < a1; a++)
		for (int b = 0; b < 63; b++)
			for (int k = 0; k < 16; k++) {
				int64_t i = (int64_t)1 << a;
				i += (k & 1 ? -1 : 1) * (k & 2 ? (int64_t)1 << b : 0) + (k & 4 ? 1 : 0);
				if (i <= 0)
					continue;
				if (k & 8)
					i = -i;
				for (int sc = -200; sc <= 200; sc += 25) {
					r->cases++;
					if (D(fpr_scaled(i, sc)) != ldexp((double)i, sc))
						BAD("fpr_scaled(%lld, %d)", (long long)i, sc);
				}
				if (D(fpr_of(i)) != (double)i)
					BAD("fpr_of(%lld)", (long long)i);
			}
	if (fpr_scaled(0, 0) || fpr_scaled(0, 50))
		BAD("fpr_scaled(0)");
	for (int x = -300; x <= 300; x++)
		for (int y = a0 * 20 - 600; y < a1 * 20 - 600; y++) {
			r->cases++;
			fpr X = fpr_of(x), Y = fpr_of(y);
			if (fpr_rint(fpr_add(X, Y)) != x + y || fpr_rint(fpr_sub(X, Y)) != x - y || fpr_rint(fpr_mul(X, Y)) != (long)x * y || (y && fpr_trunc(fpr_div(fpr_of((long)x * y), Y)) != x))
				BAD("integers %d, %d", x, y);
		}
}
/* the published FACCT polynomial, every product floored at 64 bits */
static uint64_t horner(double x, double ccs)
{
	static const uint64_t c[] = {0x4741183A3, 0x36548CFC06, 0x24FDCBF140A, 0x171D939DE045, 0xD00CF58F6F84, 0x680681CF796E3, 0x2D82D8305B0FEA, 0x11111110E066FD0,
		0x555555555070F00, 0x155555555581FF00, 0x400000000002B400, 0x7FFFFFFFFFFF4800, 0x8000000000000000};
	uint64_t y = c[0], z = (uint64_t)ldexp(x, 63) << 1;
	for (int i = 1; i < 13; i++)
		y = c[i] - (uint64_t)((unsigned __int128)z * y >> 64);
	return (unsigned __int128)((uint64_t)ldexp(ccs, 63) << 1) * y >> 64;
}
/* exp(-x)*ccs*2^63 on a grid of x in [0, ln 2) with all neighbours of the edges */
void h_exp(int lo, int hi, int n, res *r)
{
	memset(r, 0, sizeof *r);
	static const double cs[] = {0.5, 0.70, 0.7314, 0.8, 0.95, 0.99999, 0.9999999999999999};
	for (int i = lo; i < hi; i++)
		for (unsigned c = 0; c < sizeof cs / sizeof *cs; c++)
			for (int d = -1; d < 2; d++) {
				double x = 0.6931471805599453 * i / n;
				if (i)
					x = D(B(x) + d);
				else if (d)
					x = ldexp(1, -30 * (d + 2));
				if (x >= 0.6931471805599454)
					continue;
				uint64_t got = fpr_expm_p63(B(x), B(cs[c]));
				__float128 want = expq(-(__float128)x) * cs[c] * ldexpq(1, 63);
				r->cases++;
				if (fabsq((__float128)got - want) > want * ldexpq(1, -50) || got != horner(x, cs[c]))
					BAD("exp(-%a) * %a gives %llu", x, cs[c], (unsigned long long)got);
			}
}
static unsigned rev(unsigned x, int b) { unsigned y = 0; while (b--) y = y << 1 | (x & 1), x >>= 1; return y; }
void h_tables(int unused, res *r)
{
	memset(r, 0, sizeof *r);
	for (int m = 1; m < 1024; m++) {
		/* entry m is exp(i pi rev(m)/1024) */
		__float128 u = ldexpq(1, -52);
		__float128 ang = M_PIq * rev(m, 10) / 1024;
		r->cases++;
		if (fabsq(D(fpr_gm_tab[2 * m]) - cosq(ang)) > u * fabsq(cosq(ang)) + ldexpq(1, -80) || fabsq(D(fpr_gm_tab[2 * m + 1]) - sinq(ang)) > u * sinq(ang))
			BAD("root table entry %d is (%a, %a)", m, D(fpr_gm_tab[2 * m]), D(fpr_gm_tab[2 * m + 1]));
	}
	for (int i = 0; i < 11; i++)
		if (D(fpr_p2_tab[i]) != ldexp(2, -i))
			BAD("power table entry %d", i);
	static const double sm[] = {0, 1.1165085072329104, 1.1321247692325274, 1.1475285353733668, 1.1702540788534828, 1.1925466358390344, 1.2144300507766141, 1.2359260567719808, 1.2570545284063217, 1.2778336969128337, 1.298280334344292};
	static const double sg[] = {0, 144.81253976308423, 146.83798833523608, 148.83587593064718, 151.78340713845503, 154.6747794602761, 157.51308555044122, 160.30114421975344, 163.04153322607107, 165.7366171829776, 168.38857144654395};
	for (int i = 1; i < 11; i++) {
		r->cases++;
		if (fabs(D(fpr_sigma_min[i]) / sm[i] - 1) > 2e-15 || fabs(D(fpr_inv_sigma[i]) * sg[i] - 1) > 2e-15)
			BAD("deviation table entry %d", i);
	}
	if (D(fpr_q) != 12289 || D(fpr_inverse_of_q) != 1.0 / 12289 || fabs(D(fpr_inv_2sqrsigma0) * 2 * 1.8205 * 1.8205 - 1) > 4e-16 || D(fpr_log2) != 0.6931471805599453 || fabs(D(fpr_inv_log2) - 1.4426950408889634) > 3e-16
		|| fabs(D(fpr_bnorm_max) - 16822.4121) > 1e-9 || D(fpr_zero) != 0 || D(fpr_one) != 1 || D(fpr_two) != 2 || D(fpr_onehalf) != 0.5 || fabs(D(fpr_invsqrt2) - sqrt(0.5)) > 2e-16 || fabs(D(fpr_invsqrt8) - sqrt(0.125)) > 1e-16
		|| D(fpr_ptwo63) != 9223372036854775808.0)
		BAD("a constant is wrong");
}

/* ---- Fourier domain: naive evaluation at one root of each conjugate pair: slot j holds exp(i pi (1 + 4 rev(j))/n) ---- */
typedef struct { long double re, im; } cx;
static void points(const double *x, int logn, cx *out)
{
	int n = 1 << logn;
	static long double co[2048], si[2048];
	static int done = -1;
	if (done != logn) {
		for (int i = 0; i < 2 * n; i++) {
			co[i] = cosl(3.14159265358979323846264338327950288L * i / n);
			si[i] = sinl(3.14159265358979323846264338327950288L * i / n);
		}
		done = logn;
	}
	for (int j = 0; j < n / 2; j++) {
		cx s = {0, 0};
		for (int i = 0; i < n; i++)
			if (x[i] != 0) {
				int k = (int)((long)i * (1 + 4 * rev(j, logn - 1)) % (2 * n));
				s.re += x[i] * co[k];
				s.im += x[i] * si[k];
			}
		out[j] = s;
	}
}
static int near(const fpr *f, const cx *w, int n, double scale)
{
	for (int i = 0; i < n / 2; i++)
		if (!(fabsl(D(f[i]) - w[i].re) <= 1e-11 * scale) || !(fabsl(D(f[i + n / 2]) - w[i].im) <= 1e-11 * scale))
			return i + 1;
	return 0;
}
static void load(fpr *f, const double *x, int n) { for (int i = 0; i < n; i++) f[i] = B(x[i]); }
static void fill(double *x, int n, int kind, int i)
{
	static const double v[] = {1, -1, 127, 6144, -12288, 0.5};
	for (int j = 0; j < n; j++)
		x[j] = kind == 1 ? v[(i + j) % 6] : kind == 2 ? (double)((j * 7919 + i * 131) % 255 - 127) : 0;
	if (kind == 0)
		x[i % n] = v[i / n % 6];
	if (kind == 3)
		x[i % n] = 3, x[(i * 5 + 1) % n] -= 127;
}
void h_fft(int logn, int kind, int lo, int hi, res *r)
{
	int n = 1 << logn;
	double x[1024];
	fpr f[1024], f0[512], f1[512], g[1024];
	cx w[512], w0[512], w1[512];
	memset(r, 0, sizeof *r);
	for (int i = lo; i < hi; i++) {
		int why = 0;
		fill(x, n, kind, i);
		double sc = 1;
		for (int j = 0; j < n; j++)
			sc += fabs(x[j]);
		points(x, logn, w);
		load(f, x, n);
		Zf(FFT)(f, logn);
		r->cases++;
		why = near(f, w, n, sc) ? 1 : 0;
		memcpy(g, f, sizeof f);
		Zf(iFFT)(g, logn);
		for (int j = 0; j < n && !why; j++)
			if (!(fabs(D(g[j]) - x[j]) <= 1e-11 * sc))
				why = 2;
		if (!why) {
			memcpy(g, f, sizeof f);
			Zf(poly_adj_fft)(g, logn);
			for (int j = 0; j < n / 2 && !why; j++)
				if (D(g[j]) != D(f[j]) || D(g[j + n / 2]) != -D(f[j + n / 2]))
					why = 3;
		}
		if (!why) {
			double e[512], o[512];
			for (int j = 0; j < n / 2; j++)
				e[j] = x[2 * j], o[j] = x[2 * j + 1];
			Zf(poly_split_fft)(f0, f1, f, logn);
			if (logn > 1) {
				points(e, logn - 1, w0);
				points(o, logn - 1, w1);
				if (near(f0, w0, n / 2, sc) || near(f1, w1, n / 2, sc))
					why = 4;
			} else if (fabs(D(f0[0]) - e[0]) > 1e-11 * sc || fabs(D(f1[0]) - o[0]) > 1e-11 * sc)
				why = 4;
			Zf(poly_merge_fft)(g, f0, f1, logn);
			if (!why && near(g, w, n, sc))
				why = 5;
		}
		if (why)
			BAD("degree 2^%d input %d/%d: %s", logn, kind, i, (const char *[]){"", "transform", "inverse transform", "adjoint", "split", "merge"}[why]);
	}
}
static cx cmul(cx a, cx b) { return (cx){a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static cx conj_(cx a) { return (cx){a.re, -a.im}; }
static cx add(cx a, cx b) { return (cx){a.re + b.re, a.im + b.im}; }
static cx cdiv(cx a, cx b) { long double d = b.re * b.re + b.im * b.im; cx t = cmul(a, conj_(b)); return (cx){t.re / d, t.im / d}; }
static double big(const cx *w, int n) { double s = 1; for (int i = 0; i < n / 2; i++) { double a = fabsl(w[i].re) + fabsl(w[i].im); if (a > s) s = a; } return s; }
void h_polyops(int logn, int lo, int hi, res *r)
{
	int n = 1 << logn, hn = n / 2;
	double x[4][1024];
	fpr f[4][1024], t[1024], u[1024], v[1024];
	cx w[4][512], e[512], e2[512];
	memset(r, 0, sizeof *r);
	for (int i = lo; i < hi; i++) {
		for (int k = 0; k < 4; k++) {
			fill(x[k], n, (i + k) % 4, i * 3 + k * 11);
			x[k][(i + k) % n] += 2 * n; /* no zero among the transforms */
			points(x[k], logn, w[k]);
			load(f[k], x[k], n);
			Zf(FFT)(f[k], logn);
		}
		const char *why = 0;
#define CHECK(name, got, expr) do { if (!why) { for (int j = 0; j < hn; j++) e[j] = (expr); if (near(got, e, n, big(e, n) * 100)) why = name; } r->cases++; } while (0)
#define OP(fn, ...) (memcpy(t, f[0], sizeof t), fn(t, __VA_ARGS__))
		OP(Zf(poly_add), f[1], logn); CHECK("add", t, add(w[0][j], w[1][j]));
		OP(Zf(poly_sub), f[1], logn); CHECK("sub", t, ((cx){w[0][j].re - w[1][j].re, w[0][j].im - w[1][j].im}));
		OP(Zf(poly_neg), logn); CHECK("neg", t, ((cx){-w[0][j].re, -w[0][j].im}));
		OP(Zf(poly_mul_fft), f[1], logn); CHECK("mul", t, cmul(w[0][j], w[1][j]));
		OP(Zf(poly_muladj_fft), f[1], logn); CHECK("muladj", t, cmul(w[0][j], conj_(w[1][j])));
		OP(Zf(poly_mulselfadj_fft), logn); CHECK("mulselfadj", t, cmul(w[0][j], conj_(w[0][j])));
		OP(Zf(poly_mulconst), B(-3.25), logn); CHECK("mulconst", t, ((cx){-3.25L * w[0][j].re, -3.25L * w[0][j].im}));
		OP(Zf(poly_div_fft), f[1], logn); CHECK("div", t, cdiv(w[0][j], w[1][j]));
		memset(t, 0, sizeof t);
		Zf(poly_invnorm2_fft)(t, f[0], f[1], logn);
		for (int j = hn; j < n; j++) t[j] = 0;
		CHECK("invnorm2", t, ((cx){1 / (add(cmul(w[0][j], conj_(w[0][j])), cmul(w[1][j], conj_(w[1][j]))).re), 0}));
		for (int j = 0; j < hn && !why; j++) /* relative, these values are small */
			if (fabsl(D(t[j]) / e[j].re - 1) > 1e-9)
				why = "invnorm2";
		for (int j = 0; j < hn; j++) u[j] = B(2.5 + j % 7), u[j + hn] = 0;
		OP(Zf(poly_mul_autoadj_fft), u, logn); CHECK("mul_autoadj", t, ((cx){w[0][j].re * D(u[j]), w[0][j].im * D(u[j])}));
		OP(Zf(poly_div_autoadj_fft), u, logn); CHECK("div_autoadj", t, ((cx){w[0][j].re / D(u[j]), w[0][j].im / D(u[j])}));
		Zf(poly_add_muladj_fft)(t, f[2], f[3], f[0], f[1], logn); CHECK("add_muladj", t, add(cmul(w[2][j], conj_(w[0][j])), cmul(w[3][j], conj_(w[1][j]))));
		/* LDL of [[a, b], [adj b, c]] with a, c real */
		fpr g00[1024], g11[1024], g01[1024];
		for (int j = 0; j < hn; j++) {
			e2[j] = add(cmul(w[0][j], conj_(w[0][j])), (cx){1, 0});
			g00[j] = B(e2[j].re), g00[j + hn] = 0;
			g11[j] = B(3 * e2[j].re + 5), g11[j + hn] = 0;
		}
		memcpy(g01, f[1], sizeof g01);
		memcpy(v, g11, sizeof v);
		Zf(poly_LDL_fft)(g00, g01, v, logn);
		CHECK("LDL l10", g01, conj_(cdiv(w[1][j], (cx){D(g00[j]), 0})));
		CHECK("LDL d11", v, add((cx){D(g11[j]), 0}, (cx){-(cmul(w[1][j], conj_(w[1][j])).re / D(g00[j])), 0}));
		Zf(poly_LDLmv_fft)(t, u, g00, f[1], g11, logn);
		CHECK("LDLmv l10", u, conj_(cdiv(w[1][j], (cx){D(g00[j]), 0})));
		CHECK("LDLmv d11", t, add((cx){D(g11[j]), 0}, (cx){-(cmul(w[1][j], conj_(w[1][j])).re / D(g00[j])), 0}));
		if (why)
			BAD("degree 2^%d operands %d: %s", logn, i, why);
	}
}
