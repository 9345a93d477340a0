/* Keccak-f[1600] for the Python checks; the compact textbook form. */
#include <stdint.h>
static uint64_t rol(uint64_t x, int s) { return s ? (x << s) | (x >> (64 - s)) : x; }
void keccakf(uint64_t *a)
{
    uint8_t r = 1;
    for (int rd = 0; rd < 24; rd ++) {
        uint64_t c[5], d, t, b[5];
        for (int x = 0; x < 5; x ++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (int x = 0; x < 5; x ++) { d = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1); for (int y = 0; y < 25; y += 5) a[x + y] ^= d; }
        int x = 1, y = 0; t = a[1];
        for (int k = 0; k < 24; k ++) { int Y = (2 * x + 3 * y) % 5; x = y; y = Y; uint64_t u = a[x + 5 * y]; a[x + 5 * y] = rol(t, (k + 1) * (k + 2) / 2 % 64); t = u; }
        for (int j = 0; j < 25; j += 5) { for (int i = 0; i < 5; i ++) b[i] = a[j + i]; for (int i = 0; i < 5; i ++) a[j + i] = b[i] ^ (~b[(i + 1) % 5] & b[(i + 2) % 5]); }
        for (int j = 0; j < 7; j ++) { if (r & 1) a[0] ^= 1ULL << ((1 << j) - 1); r = (r << 1) ^ ((r >> 7) * 0x71); }
    }
}
