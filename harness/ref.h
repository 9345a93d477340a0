/* Independent reference of the algorithms the checks use as oracle (no code shared with the tree under test). */
#ifndef REF_H
#define REF_H
#include <stdint.h>
#include <stddef.h>
#define RQ 12289
void ref_keccakf(uint64_t A[25]);
void ref_sponge(const uint8_t *in, size_t len, int pad, size_t rate, uint8_t *out, size_t outlen);
void ref_shake256(const uint8_t *in, size_t len, uint8_t *out, size_t outlen);
void ref_keccak256(const uint8_t *in, size_t len, uint8_t out[32]);
/* keccak counter PRNG: state = keccak256(in); block i = keccak256(state || be64(i)) */
void ref_kprng(const uint8_t *in, size_t len, uint8_t *out, size_t outlen);
/* xof: 0 SHAKE256, 1 keccak counter PRNG */
void ref_h2p(int xof, const uint8_t *in, size_t len, uint16_t *c, unsigned n);
void ref_mul(const int32_t *a, const int32_t *b, int32_t *out, unsigned n); /* mod q, X^n+1, result 0..q-1 */
void ref_ntt(int32_t *a, unsigned n);   /* bit-reversed order evaluation at odd powers of psi (7^(2048/2n)) */
void ref_intt(int32_t *a, unsigned n);
int ref_invertible(const int32_t *a, unsigned n);
uint32_t ref_bound(unsigned logn);
uint32_t ref_hint(const int32_t *s2);
int ref_div(const int32_t *num, const int32_t *den, int32_t *out, unsigned n);
void ref_mul_school(const int32_t *a, const int32_t *b, int32_t *out, unsigned n);
/* spec verdicts on a packaged signed message; returns 1 accept, 0 reject. *mlen set when accepted */
int ref_open_nist(int xof, const uint8_t *sm, size_t smlen, const uint8_t *pk, size_t *mlen);
int ref_open_zknox(int xof, const uint8_t *sm, size_t smlen, const uint8_t *pk, size_t *mlen);
int ref_open_epervier(const uint8_t *sm, size_t smlen, const uint8_t *pk, size_t *mlen);
/* codecs: return number of bytes consumed, or -1 when the string is not a canonical encoding prefix */
long ref_comp_dec(int32_t *x, unsigned n, const uint8_t *in, size_t len);
long ref_comp_enc(const int32_t *x, unsigned n, uint8_t *out, size_t max);
long ref_fix_dec(int32_t *x, unsigned n, unsigned bits, const uint8_t *in, size_t len); /* raw unsigned fields + zero pad */
#endif
