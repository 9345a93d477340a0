/* Stands for the native library: only records whether two calls that use the global generator overlap. Each call waits a moment for another one to arrive. */
#include <stdatomic.h>
#include <stdlib.h>
#include <stdio.h>
#include <time.h>
static atomic_int in, over;
static void call(void)
{
	struct timespec t = {0, 1000000};
	if (atomic_fetch_add(&in, 1) > 0)
		atomic_store(&over, 1);
	for (int i = 0; i < 150 && !atomic_load(&over); i++)
		nanosleep(&t, 0);
	atomic_fetch_sub(&in, 1);
	if (atomic_load(&over))
		fprintf(stderr, "OVERLAP\n");
}
void randombytes_init(unsigned char *a, unsigned char *b, int c) { (void)a, (void)b, (void)c; }
int crypto_sign_keypair(unsigned char *pk, unsigned char *sk) { (void)pk, (void)sk; call(); return 0; }
int crypto_sign(unsigned char *sm, unsigned long long *n, const unsigned char *m, unsigned long long l, const unsigned char *sk)
{
	(void)sm, (void)m, (void)l, (void)sk;
	call();
	*n = 0;
	return 0;
}
int crypto_sign_open(unsigned char *m, unsigned long long *ml, const unsigned char *sm, unsigned long long n, const unsigned char *pk)
{
	(void)m, (void)ml, (void)sm, (void)n, (void)pk;
	return -1;
}
