/* Native signing with the integer sampler replaced by an enumerated answer tape (falcon_inner_sampler is overridden at link time). */
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <stdlib.h>
#include <stdio.h>
#include "inner.h"
static double D(fpr x) { double d; memcpy(&d, &x, 8); return d; }
#define MAX 4096
static int ans[MAX], nans, ncalls, attempts;
int l_absolute; /* answers are the integers themselves instead of offsets from the floor */
static double c_mu[MAX], c_is[MAX], c_smin;
static int c_z[MAX], per;
static int last[2048];
/* answers: floor(mu) + ans[i] on the first attempt, nearest integer on later ones (always short enough) */
int Zf(sampler)(void *ctx, fpr mu, fpr isigma)
{
	int i = ncalls++, z;
	double m = D(mu);
	if (i < per) {
		z = l_absolute ? ans[i] : (int)floor(m) + (i < nans ? ans[i] : 0);
		if (i < MAX)
			c_mu[i] = m, c_is[i] = D(isigma), c_z[i] = z;
		c_smin = D(((sampler_context *)ctx)->sigma_min);
	} else
		z = (int)lrint(m);
	last[i % per % 2048] = z;
	attempts = i / per + 1;
	return z;
}
static int8_t kf[1024], kg[1024], kF[1024], kG[1024];
int l_keygen(int logn, const uint8_t *seed, int slen, int8_t *f, int8_t *g, int8_t *F, int8_t *G, uint16_t *h)
{
	inner_shake256_context rng;
	uint64_t tmp[FALCON_KEYGEN_TEMP_10 / 8 + 64];
	memset(tmp, 0xEE, sizeof tmp);
	inner_shake256_init(&rng);
	inner_shake256_inject(&rng, seed, slen);
	inner_shake256_flip(&rng);
	Zf(keygen)(&rng, f, g, F, G, h, logn, (uint8_t *)tmp);
	return 0;
}
/* runs one signature; returns the number of sampler calls of all attempts */
int l_sign(int tree, int logn, const int8_t *f, const int8_t *g, const int8_t *F, const int8_t *G, const uint16_t *hm, const int *a, int na,
	int16_t *s1, int16_t *s2, double *mu, double *is, int *z, int *final, double *smin, int *att)
{
	int n = 1 << logn;
	inner_shake256_context rng;
	static uint64_t tmp[72 * 1024 / 8 + 64];
	static fpr ek[(8 * 10 + 40) * 1024 / 8 + 64];
	inner_shake256_init(&rng);
	inner_shake256_flip(&rng);
	memset(tmp, 0xDD, sizeof tmp);
	ncalls = attempts = 0, per = 2 * n, nans = na;
	memcpy(ans, a, na * sizeof *a);
	uint16_t h[1024];
	memcpy(h, hm, 2 * n);
	if (tree) {
		memset(ek, 0xBB, sizeof ek);
		Zf(expand_privkey)(ek, f, g, F, G, logn, (uint8_t *)tmp);
		Zf(sign_tree)(s2, &rng, ek, h, logn, (uint8_t *)tmp);
	} else
		Zf(sign_dyn)(s2, &rng, f, g, F, G, h, logn, (uint8_t *)tmp);
	memcpy(s1, tmp, 2 * n);
	for (int i = 0; i < 2 * n; i++)
		mu[i] = c_mu[i], is[i] = c_is[i], z[i] = c_z[i], final[i] = last[i];
	*smin = c_smin;
	*att = attempts;
	return ncalls;
}

typedef struct { long cases, accepted, bad; char msg[400]; } res;
/* every pattern of answer offsets in base^(2n), for patterns lo..hi-1: the first attempt is returned exactly when its norm is within the bound */
void l_enum(int tree, int logn, const int8_t *f, const int8_t *g, const int8_t *F, const int8_t *G, const uint16_t *hm, const int *perm, int base, int lo, int hi, int bound, int keyid, res *r)
{
	int n = 1 << logn, a[64];
	int16_t s1[1024], s2[1024];
	static double mu[MAX], is[MAX];
	static int z[MAX], fin[MAX];
	double smin;
	memset(r, 0, sizeof *r);
	for (int p = lo; p < hi; p++) {
		int att, t = p;
		for (int i = 2 * n - 1; i >= 0; i--)
			a[i] = t % base - base / 2, t /= base;
		l_sign(tree, logn, f, g, F, G, hm, a, 2 * n, s1, s2, mu, is, z, fin, &smin, &att);
		long w[64], v[64], zz[2][64], nrm = 0;
		for (int i = 0; i < 2 * n; i++)
			zz[i < n][perm[i]] = z[i]; /* the first n calls fix the second block */
		for (int i = 0; i < n; i++)
			w[i] = hm[i], v[i] = 0;
		for (int i = 0; i < n; i++)
			for (int j = 0; j < n; j++) {
				int k = (i + j) % n, sg = i + j < n ? 1 : -1;
				w[k] -= sg * (zz[0][i] * g[j] + zz[1][i] * G[j]);
				v[k] += sg * (zz[0][i] * f[j] + zz[1][i] * F[j]);
			}
		int ok = att == 1;
		for (int i = 0; i < n; i++) {
			nrm += w[i] * w[i] + v[i] * v[i];
			if (att == 1 && (s1[i] != w[i] || s2[i] != v[i]))
				ok = -1;
		}
		r->cases++;
		r->accepted += att == 1;
		if (ok < 0 || ok != (nrm <= bound)) {
			if (!r->bad++)
				snprintf(r->msg, sizeof r->msg, "degree %d key %d path %s pattern %d: an attempt of norm %ld (bound %d) was %s", n, keyid, tree ? "tree" : "dyn", p, nrm, bound, ok < 0 ? "returned as other values" : ok ? "returned" : "thrown away");
		}
	}
}
