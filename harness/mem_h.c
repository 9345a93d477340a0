/* Memory and undefined-behaviour driver: every buffer is an exactly sized heap block, so that the sanitizers see any access outside it. Usage: mem_h MODE LO HI STEP SEED.
   Prints "cases N reached M last LABEL"; a sanitizer report or a crash ends it. The case being run is in `label`, printed by the death callback. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include "inner.h"
#include "api.h"
#include "katrng.h"
static char label[200];
static long cases, reached;
static unsigned sd;
void __sanitizer_set_death_callback(void (*f)(void));
static void say(void) { fprintf(stderr, "\nCASE %s\n", label); fflush(stderr); }
static void onsig(int s) { fprintf(stderr, "\nsignal %d", s); say(); _exit(99); }
#define CASE(...) (cases++, snprintf(label, sizeof label, __VA_ARGS__), alarm(60))
static uint32_t rs = 1;
static uint32_t rnd(void) { rs ^= rs << 13, rs ^= rs >> 17, rs ^= rs << 5; return rs; }
/* kind 0 zeros, 1 ones, 2.. pseudo-random */
static uint8_t *mk(size_t n, int kind)
{
	uint8_t *p = malloc(n ? n : 1);
	if (!n) {
		free(p);
		p = malloc(0);
	}
	rs = 0x9E3779B9u * (kind + 7) + (uint32_t)n * 40503u + sd;
	if (!rs) rs = 1;
	for (size_t i = 0; i < n; i++)
		p[i] = kind == 0 ? 0 : kind == 1 ? 0xFF : (uint8_t)(rnd() >> 11);
	return p;
}
static uint8_t *dup_(const void *a, size_t n) { uint8_t *p = malloc(n ? n : 1); if (!n) { free(p); p = malloc(0); } if (n) memcpy(p, a, n); return p; }
static void use(const void *p, size_t n) { volatile uint8_t x = 0; for (size_t i = 0; i < n; i++) if (((const uint8_t *)p)[i]) x ^= 1; }
static int pkl(int s) { return s ? ZKNOX_CRYPTO_PUBLICKEYBYTES : CRYPTO_PUBLICKEYBYTES; }
static int over(int s) { return s == 0 ? CRYPTO_BYTES : s == 1 ? ZKNOX_CRYPTO_BYTES : ZKNOX_CRYPTO_BYTES_EPERVIER; }
static int do_open(int s, uint8_t *m, unsigned long long *ml, const uint8_t *sm, unsigned long long n, const uint8_t *pk)
{
	return s == 0 ? crypto_sign_open(m, ml, sm, n, pk) : s == 1 ? zknox_crypto_sign_open(m, ml, sm, n, pk) : zknox_crypto_sign_open_epervier(m, ml, sm, n, pk);
}
static int do_sign(int s, uint8_t *sm, unsigned long long *n, const uint8_t *m, unsigned long long ml, const uint8_t *sk)
{
	return s == 0 ? crypto_sign(sm, n, m, ml, sk) : s == 1 ? zknox_crypto_sign(sm, n, m, ml, sk) : zknox_crypto_sign_epervier(sm, n, m, ml, sk);
}
static void seed_(int k) { uint8_t e[48]; for (int i = 0; i < 48; i++) e[i] = (uint8_t)(i * 7 + k + sd); randombytes_init(e, NULL, 256); }
static uint8_t *kpk[3], *ksk[3];
static void keys(void)
{
	CASE("key generation into exactly sized buffers");
	for (int s = 0; s < 3; s++) {
		seed_(s);
		kpk[s] = malloc(pkl(s)), ksk[s] = malloc(CRYPTO_SECRETKEYBYTES);
		int r = s ? zknox_crypto_sign_keypair(kpk[s], ksk[s]) : crypto_sign_keypair(kpk[s], ksk[s]);
		if (s == 2)
			r |= zknox_pk_epervier(kpk[s]);
		if (r) {
			fprintf(stderr, "key generation failed");
			say();
			exit(98);
		}
		use(kpk[s], pkl(s)), use(ksk[s], CRYPTO_SECRETKEYBYTES);
	}
}
/* opens sm of n bytes (exact copy) into a buffer just large enough for the declared message */
static void try_open(int s, const uint8_t *sm0, size_t n, const uint8_t *pk0)
{
	uint8_t *sm = dup_(sm0, n), *pk = dup_(pk0, pkl(s));
	long cap = n < 42 ? 0 : (long)n - 42 - ((long)sm[0] << 8 | sm[1]);
	uint8_t *m = malloc(cap > 0 ? cap : 0);
	unsigned long long ml = 0;
	int r = do_open(s, m, &ml, sm, n, pk);
	if (r == 0) {
		reached++;
		use(m, ml);
	}
	free(sm), free(pk), free(m);
}
static uint8_t *signed_(int s, size_t ml, size_t *n)
{
	uint8_t *m = mk(ml, 3), *sm = malloc(over(s) + ml), *sk = dup_(ksk[s], CRYPTO_SECRETKEYBYTES);
	unsigned long long l = 0;
	int r = do_sign(s, sm, &l, m, ml, sk);
	*n = r ? 0 : l;
	use(sm, *n);
	free(m), free(sk);
	return sm;
}
static void m_sign(long lo, long hi, long st)
{
	for (long ml = lo; ml < hi; ml += st)
		for (int s = 0; s < 3; s++) {
			size_t n;
			seed_((int)ml);
			CASE("scheme %d: signing a message of %ld bytes into an exactly sized buffer", s, ml);
			uint8_t *sm = signed_(s, ml, &n);
			CASE("scheme %d: opening an honest signed message of %ld bytes message", s, ml);
			if (n)
				try_open(s, sm, n, kpk[s]);
			/* the same in one buffer: message and output overlap */
			for (int off = 0; n && off < 43; off += 21) {
				uint8_t *b = malloc(over(s) + ml + off), *pk = dup_(kpk[s], pkl(s)), *sk = dup_(ksk[s], CRYPTO_SECRETKEYBYTES);
				unsigned long long l = 0, ol = 0;
				memset(b, 0, over(s) + ml + off);
				CASE("scheme %d: signing a message of %ld bytes at offset %d of the output buffer", s, ml, off);
				if (do_sign(s, b, &l, b + off, ml, sk) == 0) {
					CASE("scheme %d: opening a signed message of %ld bytes message into the same buffer at offset %d", s, ml, off);
					if (do_open(s, b + off, &ol, b, l, pk) == 0)
						reached++, use(b + off, ol);
				}
				free(b), free(pk), free(sk);
			}
			free(sm);
		}
}
static void m_open(long lo, long hi, long st)
{
	for (int s = 0; s < 3; s++) {
		size_t n;
		seed_(5);
		uint8_t *sm = signed_(s, 9, &n);
		for (long k = lo; k < hi; k += st) {
			CASE("scheme %d: opening the first %ld bytes of a signed message", s, k);
			uint8_t *t = mk(k > (long)n ? k : n, 2);
			memcpy(t, sm, n);
			try_open(s, t, k, kpk[s]);
			/* the declared length stays within what is there, at every distance from the end */
			for (long d = -2; d < 3; d++) {
				long L = k - 42 + d;
				CASE("scheme %d: %ld bytes declaring a signature of %ld bytes", s, k, L);
				t[0] = (uint8_t)(L >> 8), t[1] = (uint8_t)L;
				try_open(s, t, k, kpk[s]);
				if (k > 42 && L >= 1 && L <= k - 42) {
					t[42 + k - 42 - L] = 0x29;
					CASE("scheme %d: %ld bytes declaring a signature of %ld bytes, right header", s, k, L);
					try_open(s, t, k, kpk[s]);
				}
			}
			if (k >= 2 && k < 64)
				for (long L = 0; L < 65536; L += L < 100 ? 1 : 379) {
					uint8_t *u = mk(k, 0);
					memset(u, 0x29, k), u[0] = (uint8_t)(L >> 8), u[1] = (uint8_t)L;
					CASE("scheme %d: %ld header bytes declaring a signature of %ld bytes", s, k, L);
					try_open(s, u, k, kpk[s]);
					free(u);
				}
			for (int kind = 0; kind < 4; kind++) {
				uint8_t *u = mk(k, kind);
				CASE("scheme %d: %ld bytes of kind %d", s, k, kind);
				try_open(s, u, k, kpk[s]);
				if (k > 50) {
					for (int L = 0; L < 6; L++) {
						u[0] = 0, u[1] = (uint8_t)L;
						if (L)
							u[k - L] = 0x29;
						CASE("scheme %d: %ld bytes of kind %d, signature of %d bytes", s, k, kind, L);
						try_open(s, u, k, kpk[s]);
					}
				}
				free(u);
			}
			free(t);
		}
		free(sm);
	}
}
static void m_declared(long lo, long hi, long st)
{
	for (int s = 0; s < 3; s++) {
		size_t n;
		seed_(5);
		uint8_t *sm = signed_(s, 700, &n);
		for (long L = lo; L < hi; L += st) {
			CASE("scheme %d: declared signature length %ld of %zu bytes", s, L, n);
			sm[0] = (uint8_t)(L >> 8), sm[1] = (uint8_t)L;
			try_open(s, sm, n, kpk[s]);
			long at = (long)n - L;
			if (L > 0 && at >= 42) {
				uint8_t c = sm[at];
				sm[at] = 0x29;
				CASE("scheme %d: declared signature length %ld of %zu bytes, right header", s, L, n);
				try_open(s, sm, n, kpk[s]);
				sm[at] = c;
			}
		}
		free(sm);
	}
}
static int refused(const uint8_t *sk)
{
	int8_t f[512], g[512], F[512], G[512];
	static uint64_t t[1024];
	return sk[0] != 0x59 || !Zf(trim_i8_decode)(f, 9, 6, sk + 1, 384) || !Zf(trim_i8_decode)(g, 9, 6, sk + 385, 384) || !Zf(trim_i8_decode)(F, 9, 8, sk + 769, 512) || !Zf(complete_private)(G, f, g, F, 9, (uint8_t *)t);
}
static void m_keys(long lo, long hi, long st)
{
	for (int s = 0; s < 3; s++) {
		size_t n;
		seed_(5);
		uint8_t *sm = signed_(s, 9, &n);
		for (long b = lo; b < hi; b += st) {
			if (b < pkl(s)) {
				for (int v = 0; v < 3; v++) {
					uint8_t *pk = dup_(kpk[s], pkl(s));
					pk[b] = v == 0 ? 0 : v == 1 ? 0xFF : pk[b] ^ 0x40;
					CASE("scheme %d: public key byte %ld set to %d", s, b, pk[b]);
					try_open(s, sm, n, pk);
					if (s == 2)
						zknox_pk_epervier(pk);
					free(pk);
				}
			}
			if (b < CRYPTO_SECRETKEYBYTES) {
				for (int v = 0; v < 3; v++) {
					uint8_t *sk = dup_(ksk[s], CRYPTO_SECRETKEYBYTES), *o = malloc(over(s) + 1);
					unsigned long long l;
					sk[b] = v == 0 ? 0 : v == 1 ? 0xFF : sk[b] ^ 0x40;
					CASE("scheme %d: private key byte %ld set to %d", s, b, sk[b]);
					/* a private key that still decodes may be no basis at all: the sampler is then not meant to end */
					if (refused(sk))
						do_sign(s, o, &l, (const uint8_t *)"x", 1, sk);
					free(sk), free(o);
				}
			}
		}
		free(sm);
	}
	if (lo == 0)
		for (int s = 0; s < 3; s++)
			for (int k = 0; k < 4; k++) {
				uint8_t *pk = mk(pkl(s), k), *sk = mk(CRYPTO_SECRETKEYBYTES, k), *o = malloc(over(s));
				unsigned long long l;
				size_t n;
				CASE("scheme %d: keys of kind %d", s, k);
				seed_(6);
				uint8_t *sm = signed_(s, 0, &n);
				try_open(s, sm, n, pk);
				pk[0] = 9, sk[0] = 0x59;
				try_open(s, sm, n, pk);
				if (refused(sk))
					do_sign(s, o, &l, (const uint8_t *)"", 0, sk);
				free(pk), free(sk), free(o), free(sm);
			}
}
static void m_seed(long lo, long hi, long st)
{
	for (long n = lo; n < hi; n += st) {
		uint8_t *s = mk(n, 2), *pk = malloc(ZKNOX_CRYPTO_PUBLICKEYBYTES), *sk = malloc(CRYPTO_SECRETKEYBYTES);
		CASE("key pair from a seed of %ld bytes", n);
		if (!zknox_crypto_sign_keypair_from_seed(pk, sk, s, n))
			reached++, use(pk, ZKNOX_CRYPTO_PUBLICKEYBYTES), use(sk, CRYPTO_SECRETKEYBYTES);
		free(s), free(pk), free(sk);
		for (int per = 0; per < 2; per++) {
			uint8_t *e = mk(48, 4), *p = mk(48, 5), *o = malloc(n);
			CASE("randombytes of %ld", n);
			randombytes_init(e, per ? p : NULL, 256);
			randombytes(o, n), use(o, n), randombytes(o, n), use(o, n);
			AES_XOF_struct c;
			uint8_t *k = mk(32, 6), *d = mk(8, 7);
			CASE("seed expander, %ld bytes", n);
			seedexpander_init(&c, k, d, 100000);
			seedexpander(&c, o, n), use(o, n);
			seedexpander(&c, o, n / 2), use(o, n / 2);
			free(e), free(p), free(o), free(k), free(d);
		}
	}
}
static void m_codec(long lo, long hi, long st)
{
	for (long L = lo; L < hi; L += st)
		for (unsigned logn = 1; logn <= 10; logn++)
			for (int kind = 0; kind < 4; kind++) {
				size_t n = (size_t)1 << logn;
				if ((size_t)L > n * 2 + 40)
					continue;
				uint8_t *in = mk(L, kind);
				uint16_t *x = malloc(2 * n);
				int8_t *y = malloc(n);
				size_t r;
#define DEC(call, buf, sz, ...) { CASE(__VA_ARGS__); r = call; if (r) { reached++, use(buf, sz); if (r > (size_t)L) { fprintf(stderr, "consumed more than given"); say(); exit(97); } } }
				DEC(Zf(modq_decode)(x, logn, in, L), x, 2 * n, "modq_decode of %ld bytes kind %d degree %zu", L, kind, n)
				DEC(Zf(modq_decode16)(x, logn, in, L), x, 2 * n, "modq_decode16 of %ld bytes kind %d degree %zu", L, kind, n)
				DEC(Zf(comp_decode)((int16_t *)x, logn, in, L), x, 2 * n, "comp_decode of %ld bytes kind %d degree %zu", L, kind, n)
				DEC(Zf(comp_decode16)((int16_t *)x, logn, in, L), x, 2 * n, "comp_decode16 of %ld bytes kind %d degree %zu", L, kind, n)
				for (unsigned b = 2; b <= 12; b += 1) {
					DEC(Zf(trim_i16_decode)((int16_t *)x, logn, b, in, L), x, 2 * n, "trim_i16_decode of %ld bytes kind %d degree %zu, %u bits", L, kind, n, b)
					if (b <= 8)
						DEC(Zf(trim_i8_decode)(y, logn, b, in, L), y, n, "trim_i8_decode of %ld bytes kind %d degree %zu, %u bits", L, kind, n, b)
				}
				/* encode into exactly L bytes */
				uint8_t *o = malloc(L);
				rs = 77 + kind + L;
				for (size_t i = 0; i < n; i++)
					x[i] = kind == 0 ? 0 : kind == 1 ? 12288 : rnd() % 12289, y[i] = kind == 0 ? 0 : kind == 1 ? 1 : (int)(rnd() % 3) - 1;
#define ENC(call, ...) { CASE(__VA_ARGS__); r = call; if (r) { reached++; if (r > (size_t)L) { fprintf(stderr, "wrote more than given"); say(); exit(97); } use(o, r); } }
				ENC(Zf(modq_encode)(o, L, x, logn), "modq_encode into %ld bytes kind %d degree %zu", L, kind, n)
				ENC(Zf(modq_encode16)(o, L, x, logn), "modq_encode16 into %ld bytes kind %d degree %zu", L, kind, n)
				for (unsigned b = 2; b <= 8; b++)
					ENC(Zf(trim_i8_encode)(o, L, y, logn, b), "trim_i8_encode into %ld bytes kind %d degree %zu, %u bits", L, kind, n, b)
				int16_t *z = malloc(2 * n);
				for (size_t i = 0; i < n; i++)
					z[i] = kind == 0 ? 0 : kind == 1 ? 2047 : (int)(rnd() % 601) - 300;
				ENC(Zf(comp_encode)(o, L, z, logn), "comp_encode into %ld bytes kind %d degree %zu", L, kind, n)
				ENC(Zf(comp_encode16)(o, L, z, logn), "comp_encode16 into %ld bytes kind %d degree %zu", L, kind, n)
				for (unsigned b = 10; b <= 12; b++)
					ENC(Zf(trim_i16_encode)(o, L, z, logn, b), "trim_i16_encode into %ld bytes kind %d degree %zu, %u bits", L, kind, n, b)
				free(in), free(x), free(y), free(o), free(z);
			}
}
static void m_hash(long lo, long hi, long st)
{
	for (long n = lo; n < hi; n += st)
		for (int off = 0; off < 3; off++) {
			uint8_t *a = mk(n, 2), *o = malloc(n + off);
			inner_shake256_context sc;
			inner_keccak256_prng_ctx kc;
			CASE("SHAKE256 absorbs and gives %ld bytes", n);
			inner_shake256_init(&sc), inner_shake256_inject(&sc, a, n), inner_shake256_inject(&sc, a, n / 2), inner_shake256_flip(&sc);
			inner_shake256_extract(&sc, o, n), use(o, n), inner_shake256_extract(&sc, o, n + off), use(o, n + off);
			CASE("Keccak generator absorbs and gives %ld bytes", n);
			inner_keccak256_init(&kc), inner_keccak256_inject(&kc, a, n), inner_keccak256_inject(&kc, a, n / 2), inner_keccak256_flip(&kc);
			inner_keccak256_extract(&kc, o, n), use(o, n), inner_keccak256_extract(&kc, o, n + off), use(o, n + off);
			for (unsigned logn = 1; logn <= 10 && off == 0; logn++) {
				uint16_t *x = malloc(2 << logn), *t = malloc(2 << logn);
				CASE("hash to point, degree %d, after %ld bytes", 1 << logn, n);
				inner_shake256_init(&sc), inner_shake256_inject(&sc, a, n), inner_shake256_flip(&sc);
				Zf(hash_to_point_vartime)(&sc, x, logn), use(x, 2 << logn);
				inner_shake256_init(&sc), inner_shake256_inject(&sc, a, n), inner_shake256_flip(&sc);
				Zf(hash_to_point_ct)(&sc, x, logn, (uint8_t *)t), use(x, 2 << logn);
				inner_keccak256_init(&kc), inner_keccak256_inject(&kc, a, n), inner_keccak256_flip(&kc);
				Zf(keccak_hash_to_point_vartime)(&kc, x, logn), use(x, 2 << logn);
				free(x), free(t);
			}
			prng p;
			CASE("sampler generator gives %ld bytes", n);
			inner_shake256_init(&sc), inner_shake256_inject(&sc, a, n), inner_shake256_flip(&sc);
			Zf(prng_init)(&p, &sc);
			for (int k = 0; k < 3; k++)
				Zf(prng_get_bytes)(&p, o, n), use(o, n), prng_get_u8(&p), prng_get_u64(&p);
			free(a), free(o);
		}
}
/* every internal step at every degree on exactly sized scratch */
static void m_core(long lo, long hi, long st)
{
	static const size_t need[] = {0, FALCON_KEYGEN_TEMP_1, FALCON_KEYGEN_TEMP_2, FALCON_KEYGEN_TEMP_3, FALCON_KEYGEN_TEMP_4, FALCON_KEYGEN_TEMP_5, FALCON_KEYGEN_TEMP_6,
		FALCON_KEYGEN_TEMP_7, FALCON_KEYGEN_TEMP_8, FALCON_KEYGEN_TEMP_9, FALCON_KEYGEN_TEMP_10};
	for (long k = lo; k < hi; k += st)
		for (unsigned logn = 1; logn <= 10; logn++) {
			size_t n = (size_t)1 << logn;
			int8_t *f = malloc(n), *g = malloc(n), *F = malloc(n), *G = malloc(n), *G2 = malloc(n);
			uint16_t *h = malloc(2 * n), *h2 = malloc(2 * n), *hm = malloc(2 * n);
			int16_t *s1 = malloc(2 * n), *s2 = malloc(2 * n);
			uint8_t *t = malloc(need[logn]);
			inner_shake256_context sc;
			uint8_t sb[8] = {(uint8_t)k, (uint8_t)(k >> 8), (uint8_t)logn, (uint8_t)sd};
			inner_shake256_init(&sc), inner_shake256_inject(&sc, sb, 8), inner_shake256_flip(&sc);
			CASE("key generation %ld, degree %zu, exactly sized scratch", k, n);
			Zf(keygen)(&sc, f, g, F, k & 1 ? G : NULL, k & 2 ? h : NULL, logn, t);
			free(t);
			CASE("public and private completion %ld, degree %zu", k, n);
			t = malloc(2 * n);
			if (!Zf(compute_public)(h, f, g, logn, t)) exit(96);
			free(t), t = malloc(4 * n);
			if (!Zf(complete_private)(G2, f, g, F, logn, t)) exit(96);
			free(t);
			for (int v = 0; v < 2; v++) {
				Zf(hash_to_point_vartime)(&sc, hm, logn);
				CASE("dynamic signing %ld, degree %zu, exactly sized scratch", k, n);
				t = malloc(72 * n);
				Zf(sign_dyn)(s2, &sc, f, g, F, G2, hm, logn, t);
				memcpy(s1, t, 2 * n);
				use(s1, 2 * n), use(s2, 2 * n);
				free(t);
				CASE("verification %ld, degree %zu", k, n);
				memcpy(h2, h, 2 * n);
				Zf(to_ntt_monty)(h2, logn);
				t = malloc(2 * n);
				if (Zf(verify_raw)(hm, s2, h2, logn, t)) reached++;
				Zf(count_nttzero)(s2, logn, t);
				Zf(is_invertible)(s2, logn, t);
				if (Zf(verify_recover)(h2, hm, s1, s2, logn, t)) reached++;
				if (Zf(verify_recover_epervier)(h2, hm, s1, s2, logn, t)) reached++;
				use(h2, 2 * n);
				free(t);
				if (logn <= 9) Zf(hint_epervier)(s2, logn);
				CASE("expanded-key signing %ld, degree %zu, exactly sized scratch", k, n);
				fpr *ek = malloc((8 * logn + 40) * n);
				t = malloc(48 * n);
				Zf(expand_privkey)(ek, f, g, F, G2, logn, t);
				free(t), t = malloc(48 * n);
				Zf(sign_tree)(s2, &sc, ek, hm, logn, t);
				use(s2, 2 * n);
				free(t), free(ek);
			}
			/* extreme values */
			CASE("verification of extreme values, degree %zu", n);
			t = malloc(2 * n);
			for (int v = 0; v < 4; v++) {
				for (size_t i = 0; i < n; i++)
					s1[i] = v & 1 ? -6144 : 6144, s2[i] = v & 2 ? -6144 : 6144;
				Zf(verify_raw)(hm, s2, h, logn, t);
				Zf(verify_recover)(h2, hm, s1, s2, logn, t);
				Zf(is_short)(s1, s2, logn);
				Zf(is_short_half)(v & 1 ? 0xFFFFFFFF : 12345, s2, logn);
			}
			free(t), free(f), free(g), free(F), free(G), free(G2), free(h), free(h2), free(hm), free(s1), free(s2);
		}
}
int main(int c, char **v)
{
	static const struct { const char *n; void (*f)(long, long, long); int k; } M[] = {{"sign", m_sign, 1}, {"open", m_open, 1}, {"declared", m_declared, 1}, {"keys", m_keys, 1}, {"seed", m_seed, 0}, {"codec", m_codec, 0}, {"hash", m_hash, 0}, {"core", m_core, 0}};
	sd = atoi(v[5]);
	signal(SIGALRM, onsig);
#if !defined(__clang__)
	__sanitizer_set_death_callback(say);
#else
	__sanitizer_set_death_callback(say);
#endif
	for (unsigned i = 0; i < sizeof M / sizeof *M; i++)
		if (!strcmp(M[i].n, v[1])) {
			if (M[i].k)
				keys();
			M[i].f(atol(v[2]), atol(v[3]), atol(v[4]));
			printf("cases %ld reached %ld last %s\n", cases, reached, label);
			return 0;
		}
	return 95;
}
