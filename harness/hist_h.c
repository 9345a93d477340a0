/* C11: operations of the native API as closed experiments; every outcome must be the one a fresh process gives, after any history and when another operation runs in the middle.
   Built with -fsanitize-coverage=trace-pc: the hook runs the second operation at a chosen basic-block boundary of the first. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "inner.h"
#include "api.h"
#include "katrng.h"
typedef struct { long cases, accepted, bad; char msg[400]; } res;
extern AES256_CTR_DRBG_struct DRBG_ctx;
static int pkl(int s) { return s ? ZKNOX_CRYPTO_PUBLICKEYBYTES : CRYPTO_PUBLICKEYBYTES; }
#define MAXO 6000
typedef struct { uint8_t d[MAXO]; size_t n; } outcome;
/* fixtures, made before anything is explored */
static uint8_t PK[3][2][1100], SK[3][2][1300], SM[3][3][4000];
static unsigned long long SL[3][3];
static uint8_t *msg_(int k) { static uint8_t m[3][80]; for (int i = 0; i < 80; i++) m[k][i] = (uint8_t)(i * 3 + k); return m[k]; }
static void seed_(int k) { uint8_t e[48]; for (int i = 0; i < 48; i++) e[i] = (uint8_t)(i * 11 + k); randombytes_init(e, NULL, 256); }
static int do_open(int s, uint8_t *m, unsigned long long *ml, const uint8_t *sm, unsigned long long n, const uint8_t *pk)
{
	return s == 0 ? crypto_sign_open(m, ml, sm, n, pk) : s == 1 ? zknox_crypto_sign_open(m, ml, sm, n, pk) : zknox_crypto_sign_open_epervier(m, ml, sm, n, pk);
}
static int do_sign(int s, uint8_t *sm, unsigned long long *n, const uint8_t *m, unsigned long long ml, const uint8_t *sk)
{
	return s == 0 ? crypto_sign(sm, n, m, ml, sk) : s == 1 ? zknox_crypto_sign(sm, n, m, ml, sk) : zknox_crypto_sign_epervier(sm, n, m, ml, sk);
}
static int do_pair(int s, uint8_t *pk, uint8_t *sk)
{
	int r = s ? zknox_crypto_sign_keypair(pk, sk) : crypto_sign_keypair(pk, sk);
	return s == 2 ? r | zknox_pk_epervier(pk) : r;
}
int h_fixtures(int sd)
{
	int bad = 0;
	for (int s = 0; s < 3; s++) {
		for (int k = 0; k < 2; k++)
			seed_(sd * 16 + s * 2 + k), bad |= do_pair(s, PK[s][k], SK[s][k]);
		for (int k = 0; k < 3; k++)
			bad |= do_sign(s, SM[s][k], &SL[s][k], msg_(k), k == 2 ? 60 : 7 + k, SK[s][k & 1]);
	}
	return bad;
}
static void put_(outcome *o, const void *p, size_t n) { if (o->n + n > MAXO) abort(); memcpy(o->d + o->n, p, n), o->n += n; }
/* operations 0..15 per scheme s; 48.. are common to all */
static const char *const NAME[] = {"open honest", "open honest, other key", "open honest, long message", "open signature of only its header", "open signature cut to half", "open under the other key", "open changed message",
	"open last byte lost", "open declared length of 1 less", "open empty body", "sign", "sign long message, other key", "sign with a broken key", "key pair", "open bad key", "open with changed last coefficient"};
static const char *const COMMON[] = {"key pair from seed", "streams", "seed expander", "stack filled with 00", "stack filled with ff", "random bytes from a seed", "internal signing at degree 16", "key generation at degree 64"};
int h_nops(void) { return 16 * 3 + 8; }
const char *h_opname(int op)
{
	static char b[100];
	if (op < 48)
		snprintf(b, sizeof b, "scheme %d %s", op / 16, NAME[op % 16]);
	else
		snprintf(b, sizeof b, "%s", COMMON[op - 48]);
	return b;
}
static __attribute__((noinline)) void fill_stack(int v) { volatile uint8_t big[60000]; memset((void *)big, v, sizeof big); __asm__ volatile("" : : "r"(big) : "memory"); }
static void run_op(int op, outcome *o)
{
	o->n = 0;
	int s = op / 16;
	if (op < 48) {
		uint8_t sm[5000], m[5000], pk[1100], sk[1300];
		unsigned long long n = SL[s][0], ml = 0x1234567;
		int r, v = op % 16;
		memset(m, 0xA5, sizeof m);
		int src = v == 1 ? 1 : v == 2 ? 2 : 0;
		memcpy(sm, SM[s][src], n = SL[s][src]);
		memcpy(pk, PK[s][v == 1 || v == 5], pkl(s));
		switch (v) {
		case 3: sm[0] = 0, sm[1] = 1, sm[42 + 7] = 0x29, n = 50; break;
		case 4: { long L = (n - 49) / 2; sm[0] = (uint8_t)(L >> 8), sm[1] = (uint8_t)L, n = 49 + L; } break;
		case 6: sm[44] ^= 1; break;
		case 7: n--; { long L = n - 49; sm[0] = (uint8_t)(L >> 8), sm[1] = (uint8_t)L; } break;
		case 8: { long L = n - 50; sm[0] = (uint8_t)(L >> 8), sm[1] = (uint8_t)L; } break;
		case 9: sm[0] = sm[1] = 0, n = 49; break;
		case 14: pk[0] ^= 8; break;
		case 15: sm[n - 1 - (s == 2 ? 2 : 0)] ^= 2; break;
		}
		if (v == 10 || v == 11 || v == 12) {
			memcpy(sk, SK[s][v == 11], CRYPTO_SECRETKEYBYTES);
			if (v == 12)
				sk[0] ^= 1;
			seed_(v);
			memset(sm, 0xA5, sizeof sm);
			n = 0x77;
			r = do_sign(s, sm, &n, msg_(2), v == 11 ? 60 : 5, sk);
			put_(o, &r, sizeof r);
			if (r == 0)
				put_(o, &n, sizeof n), put_(o, sm, n);
			put_(o, &DRBG_ctx, sizeof DRBG_ctx);
		} else if (v == 13) {
			seed_(v + s);
			r = do_pair(s, pk, sk);
			put_(o, &r, sizeof r), put_(o, pk, pkl(s)), put_(o, sk, CRYPTO_SECRETKEYBYTES);
		} else {
			r = do_open(s, m, &ml, sm, n, pk);
			put_(o, &r, sizeof r), put_(o, m, 200), put_(o, &ml, sizeof ml);
		}
		return;
	}
	uint8_t a[700], b[700];
	for (int i = 0; i < 700; i++)
		a[i] = (uint8_t)(i * 13 + 5);
	switch (op - 48) {
	case 0: {
		uint8_t pk[1100], sk[1300];
		int r = zknox_crypto_sign_keypair_from_seed(pk, sk, a, 41);
		put_(o, &r, sizeof r), put_(o, pk, pkl(1)), put_(o, sk, CRYPTO_SECRETKEYBYTES);
	} break;
	case 1: {
		inner_shake256_context sc;
		inner_keccak256_prng_ctx kc;
		uint16_t x[64], y[64], t[64];
		inner_shake256_init(&sc), inner_shake256_inject(&sc, a, 150), inner_shake256_inject(&sc, a + 3, 11), inner_shake256_flip(&sc);
		inner_shake256_extract(&sc, b, 77), put_(o, b, 77), inner_shake256_extract(&sc, b, 300), put_(o, b, 300);
		Zf(hash_to_point_vartime)(&sc, x, 6), put_(o, x, sizeof x);
		Zf(hash_to_point_ct)(&sc, y, 6, (uint8_t *)t), put_(o, y, sizeof y);
		inner_keccak256_init(&kc), inner_keccak256_inject(&kc, a, 150), inner_keccak256_inject(&kc, a + 3, 11), inner_keccak256_flip(&kc);
		inner_keccak256_extract(&kc, b, 77), put_(o, b, 77), inner_keccak256_extract(&kc, b, 300), put_(o, b, 300);
		Zf(keccak_hash_to_point_vartime)(&kc, x, 6), put_(o, x, sizeof x);
		prng p;
		Zf(prng_init)(&p, &sc);
		Zf(prng_get_bytes)(&p, b, 601), put_(o, b, 601);
	} break;
	case 2: {
		AES_XOF_struct c;
		seedexpander_init(&c, a, a + 40, 5000);
		seedexpander(&c, b, 5), put_(o, b, 5), seedexpander(&c, b, 100), put_(o, b, 100);
	} break;
	case 3: fill_stack(0); break;
	case 4: fill_stack(0xFF); break;
	case 5: {
		uint8_t e[48];
		memcpy(e, a, 48);
		randombytes_init(e, a + 100, 256);
		for (int k = 0; k < 3; k++)
			randombytes(b, 33 + k), put_(o, b, 33 + k);
	} break;
	case 6: {
		inner_shake256_context sc;
		int8_t f[16], g[16], F[16], G[16];
		uint16_t hm[16];
		int16_t sg[16];
		uint64_t t[72 * 16], t2[48 * 16];
		fpr ek[(8 * 4 + 40) * 16];
		inner_shake256_init(&sc), inner_shake256_inject(&sc, a, 9), inner_shake256_flip(&sc);
		Zf(keygen)(&sc, f, g, F, G, NULL, 4, (uint8_t *)t);
		Zf(hash_to_point_vartime)(&sc, hm, 4);
		Zf(sign_dyn)(sg, &sc, f, g, F, G, hm, 4, (uint8_t *)t), put_(o, sg, sizeof sg);
		Zf(expand_privkey)(ek, f, g, F, G, 4, (uint8_t *)t);
		Zf(sign_tree)(sg, &sc, ek, hm, 4, (uint8_t *)t2), put_(o, sg, sizeof sg);
	} break;
	case 7: {
		inner_shake256_context sc;
		int8_t f[64], g[64], F[64], G[64];
		uint16_t h[64];
		static uint64_t t[FALCON_KEYGEN_TEMP_6 / 8 + 1];
		uint64_t *tt = malloc(sizeof t);
		inner_shake256_init(&sc), inner_shake256_inject(&sc, a, 10), inner_shake256_flip(&sc);
		Zf(keygen)(&sc, f, g, F, G, h, 6, (uint8_t *)tt);
		free(tt);
		put_(o, f, 64), put_(o, g, 64), put_(o, F, 64), put_(o, G, 64), put_(o, h, 128);
	} break;
	}
}
/* ---- basic-block boundaries */
static int armed;          /* 1: recording, 2: exploring */
static long clk, target;
static int second;
static outcome inner_out;
typedef struct { void *f; long n, first[2], last; } site;
#define NS 65536
static site *S;
static long nsites;
void __sanitizer_cov_trace_pc(void)
{
	if (!armed)
		return;
	void *f = __builtin_return_address(0);
	clk++;
	if (armed == 1) {
		unsigned long h = ((unsigned long)f * 0x9E3779B1u >> 4) % NS;
		while (S[h].n && S[h].f != f)
			h = (h + 1) % NS;
		if (!S[h].n)
			S[h].f = f, nsites++;
		if (S[h].n < 2)
			S[h].first[S[h].n] = clk;
		S[h].n++, S[h].last = clk;
	} else if (clk == target) {
		armed = 0;
		AES256_CTR_DRBG_struct keep = DRBG_ctx;     /* the generator is the one thing the operations share */
		run_op(second, &inner_out);
		DRBG_ctx = keep;
		armed = 2;
	}
}
/* outcomes in a process that did nothing else: one per op, kept by the caller */
size_t h_fresh(int op, uint8_t *out)
{
	outcome o;
	run_op(op, &o);
	memcpy(out, o.d, o.n);
	return o.n;
}
static outcome base[64];
void h_base(int op, const uint8_t *d, size_t n) { memcpy(base[op].d, d, n), base[op].n = n; }
static int same(const outcome *a, const outcome *b) { return a->n == b->n && !memcmp(a->d, b->d, a->n); }
/* all sequences of the given depth over ops[], whose first element is ops[first] */
void h_sequences(const int *ops, int nops, int depth, int first, res *r)
{
	int ix[8] = {0};
	static outcome o;
	memset(r, 0, sizeof *r);
	ix[0] = first;
	for (;;) {
		for (int d = 0; d < depth; d++) {
			run_op(ops[ix[d]], &o);
			if (!same(&o, &base[ops[ix[d]]])) {
				if (!r->bad++) {
					int k = snprintf(r->msg, sizeof r->msg, "after ");
					for (int e = 0; e < d; e++)
						k += snprintf(r->msg + k, sizeof r->msg - k, "%s; ", h_opname(ops[ix[e]]));
					snprintf(r->msg + k, sizeof r->msg - k, "then %s", h_opname(ops[ix[d]]));
				}
				break;
			}
		}
		r->cases++;
		int d = depth - 1;
		while (d > 0 && ++ix[d] == nops)
			ix[d--] = 0;
		if (d == 0)
			return;
	}
}
/* b runs at every selected boundary of a: the first two and the last visit of every basic block; full=1: every visit, -1: only the first visit of every block */
void h_interleave(int a, int b, int full, int part, int parts, res *r)
{
	static outcome o;
	memset(r, 0, sizeof *r);
	S = calloc(NS, sizeof *S), nsites = 0;
	clk = 0, armed = 1;
	run_op(a, &o);
	armed = 0;
	long total = clk, np = 0, *pts = malloc((total * 1 + 10) * sizeof *pts);
	if (!same(&o, &base[a]))
		r->bad++, snprintf(r->msg, sizeof r->msg, "%s with nothing in between differs", h_opname(a));
	char *pick = calloc(total + 2, 1);
	for (long i = 0; i < NS; i++)
		if (S[i].n) {
			pick[S[i].first[0]] = 1;
			if (full < 0)
				continue;
			pick[S[i].last] = 1;
			if (S[i].n > 1)
				pick[S[i].first[1]] = 1;
		}
	for (long i = 1; i <= total; i++)
		if (full > 0 || pick[i])
			pts[np++] = i;
	for (long i = part; i < np; i += parts) {
		target = pts[i], second = b, clk = 0, inner_out.n = MAXO + 1, armed = 2;
		run_op(a, &o);
		armed = 0;
		r->cases++;
		if (!same(&o, &base[a]) || !same(&inner_out, &base[b]))
			if (!r->bad++)
				{
				int k = snprintf(r->msg, sizeof r->msg, "%s, ", same(&inner_out, &base[b]) ? "the interrupted operation goes wrong" : "the interrupting operation goes wrong");
				k += snprintf(r->msg + k, sizeof r->msg - k, "%s in the middle of ", h_opname(b));
				snprintf(r->msg + k, sizeof r->msg - k, "%s, boundary %ld of %ld", h_opname(a), target, total);
				}
	}
	r->accepted = nsites;
	free(S), free(pts), free(pick);
}
