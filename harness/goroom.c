/* In front of the native functions, for the Go binding: touches the whole of every buffer the caller must provide (api.h), as the rare longest signature would. */
#include <stddef.h>
#include "api.h"
int room_crypto_sign(unsigned char *, unsigned long long *, const unsigned char *, unsigned long long, const unsigned char *);
int room_crypto_sign_keypair(unsigned char *, unsigned char *);

static void touch(unsigned char *p, unsigned long long n)
{
    for (unsigned long long i = 0; i < n; i++)
        ((volatile unsigned char *)p)[i] = p[i];
}

int crypto_sign(unsigned char *sm, unsigned long long *smlen, const unsigned char *m, unsigned long long mlen, const unsigned char *sk)
{
    touch(sm, CRYPTO_BYTES + mlen);
    return room_crypto_sign(sm, smlen, m, mlen, sk);
}

int crypto_sign_keypair(unsigned char *pk, unsigned char *sk)
{
    touch(pk, CRYPTO_PUBLICKEYBYTES);
    touch(sk, CRYPTO_SECRETKEYBYTES);
    return room_crypto_sign_keypair(pk, sk);
}
