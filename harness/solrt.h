/* Run-time for Solidity translated to C: EVM words, memory with Solidity's allocator, reverts, code storage. */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <setjmp.h>
typedef unsigned _BitInt(256) W;
typedef signed _BitInt(256) SW;
typedef unsigned _BitInt(512) WW;
#define MEMSZ (1u << 23)
#define DEPTH 4
static uint8_t memory_[DEPTH][MEMSZ];
static int depth_;
static size_t high_[DEPTH];
#define MEM memory_[depth_]
static jmp_buf jmp_[DEPTH];
static uint64_t gas_;
static uint8_t revdata_[4096];
static size_t revlen_;
static int revkind_;      /* 1 revert, 2 panic, 3 out of gas, 4 invalid, 9 not translated */
static W yr_[16];         /* further results of an assembly function */

static _Noreturn void fail_(int kind, const void *d, size_t n) {
	revkind_ = kind;
	if (n > sizeof revdata_) n = sizeof revdata_;
	memmove(revdata_, d, n);
	revlen_ = n;
	if (kind == 9) depth_ = 0;
	longjmp(jmp_[depth_], 1);
}
#define PANIC(c) do { uint8_t pc_ = (c); fail_(2, &pc_, 1); } while (0)
static inline void tick_(void) { if (++gas_ > (1ull << 27)) fail_(3, "loop", 4); }
static inline size_t span_(W a, W n) {
	if (n == 0) return 0;
	if (a >= MEMSZ || n > MEMSZ || a + n > MEMSZ) fail_(3, "memory", 6);
	size_t e = ((size_t)(a + n) + 31) & ~(size_t)31;
	if (e > high_[depth_]) high_[depth_] = e;
	return (size_t)a;
}
static inline W rd_(const uint8_t *p) {
	uint64_t x[4], y[4];
	memcpy(x, p, 32);
	for (int i = 0; i < 4; i++) y[i] = __builtin_bswap64(x[3 - i]);
	W r; memcpy(&r, y, 32); return r;
}
static inline void wr_(uint8_t *p, W v) {
	uint64_t x[4], y[4];
	memcpy(x, &v, 32);
	for (int i = 0; i < 4; i++) y[i] = __builtin_bswap64(x[3 - i]);
	memcpy(p, y, 32);
}
static inline W y_mload(W a) { return rd_(MEM + span_(a, 32)); }
static inline W y_mstore(W a, W v) { wr_(MEM + span_(a, 32), v); return 0; }
static inline W y_mstore8(W a, W v) { MEM[span_(a, 1)] = (uint8_t)v; return 0; }
static inline W y_add(W a, W b) { return a + b; }
static inline W y_sub(W a, W b) { return a - b; }
static inline int small_(W a) { return (a >> 32) == 0; }
static inline W y_mul(W a, W b) { if (small_(a) && small_(b)) return (uint64_t)a * (uint64_t)b; return a * b; }
static inline W y_div(W a, W b) { if (b == 0) return 0; if (a >> 64 == 0 && b >> 64 == 0) return (uint64_t)a / (uint64_t)b; return a / b; }
static inline W y_mod(W a, W b) { if (b == 0) return 0; if (a >> 64 == 0 && b >> 64 == 0) return (uint64_t)a % (uint64_t)b; return a % b; }
static inline W y_sdiv(W a, W b) { if (b == 0) return 0; SW x = a, y = b; if (y == -1) return -a; return (W)(x / y); }
static inline W y_smod(W a, W b) { if (b == 0) return 0; SW x = a, y = b; if (y == -1) return 0; return (W)(x % y); }
static inline W y_addmod(W a, W b, W m) {
	if (m == 0) return 0;
	if (small_(a) && small_(b) && small_(m)) return ((uint64_t)a + (uint64_t)b) % (uint64_t)m;
	return (W)(((WW)a + (WW)b) % (WW)m);
}
static inline W y_mulmod(W a, W b, W m) {
	if (m == 0) return 0;
	if (small_(a) && small_(b) && small_(m)) return ((uint64_t)a * (uint64_t)b) % (uint64_t)m;
	return (W)(((WW)a * (WW)b) % (WW)m);
}
static inline W y_exp(W a, W b) { W r = 1; while (b) { if (b & 1) r *= a; a *= a; b >>= 1; } return r; }
static inline W y_lt(W a, W b) { return a < b; }
static inline W y_gt(W a, W b) { return a > b; }
static inline W y_slt(W a, W b) { return (SW)a < (SW)b; }
static inline W y_sgt(W a, W b) { return (SW)a > (SW)b; }
static inline W y_eq(W a, W b) { return a == b; }
static inline W y_iszero(W a) { return a == 0; }
static inline W y_and(W a, W b) { return a & b; }
static inline W y_or(W a, W b) { return a | b; }
static inline W y_xor(W a, W b) { return a ^ b; }
static inline W y_not(W a) { return ~a; }
static inline W y_shl(W s, W a) { return s > 255 ? (W)0 : a << (unsigned)s; }
static inline W y_shr(W s, W a) { return s > 255 ? (W)0 : a >> (unsigned)s; }
static inline W y_sar(W s, W a) { return s > 255 ? (W)((SW)a < 0 ? -1 : 0) : (W)((SW)a >> (unsigned)s); }
static inline W y_byte(W i, W a) { return i > 31 ? (W)0 : (a >> (unsigned)(248 - 8 * (unsigned)i)) & 255; }
static inline W y_signextend(W k, W a) { if (k > 30) return a; unsigned s = 248 - 8 * (unsigned)k; return (W)((SW)(a << s) >> s); }
static inline W y_pop(W a) { (void)a; return 0; }
static inline W y_gas(void) { return (W)30000000; }
static inline W y_msize(void) { return high_[depth_]; }

static void keccakf_(uint64_t s[25]) {
	static const uint64_t rc[24] = {
		0x1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081, 0x8000000000008009,
		0x8a, 0x88, 0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003,
		0x8000000000008002, 0x8000000000000080, 0x800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008};
	static const int rot[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44};
	static const int pil[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
	for (int r = 0; r < 24; r++) {
		uint64_t b[5], t;
		for (int i = 0; i < 5; i++) b[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20];
		for (int i = 0; i < 5; i++) {
			t = b[(i + 4) % 5] ^ (b[(i + 1) % 5] << 1 | b[(i + 1) % 5] >> 63);
			for (int j = 0; j < 25; j += 5) s[j + i] ^= t;
		}
		t = s[1];
		for (int i = 0; i < 24; i++) { uint64_t u = s[pil[i]]; s[pil[i]] = t << rot[i] | t >> (64 - rot[i]); t = u; }
		for (int j = 0; j < 25; j += 5) {
			for (int i = 0; i < 5; i++) b[i] = s[j + i];
			for (int i = 0; i < 5; i++) s[j + i] = b[i] ^ (~b[(i + 1) % 5] & b[(i + 2) % 5]);
		}
		s[0] ^= rc[r];
	}
}
static void keccak_(uint8_t out[32], const uint8_t *p, size_t n) {
	uint64_t s[25] = {0};
	uint8_t *b = (uint8_t *)s;
	while (n >= 136) { for (int i = 0; i < 136; i++) b[i] ^= p[i]; keccakf_(s); p += 136; n -= 136; }
	for (size_t i = 0; i < n; i++) b[i] ^= p[i];
	b[n] ^= 1; b[135] ^= 0x80;
	keccakf_(s);
	memcpy(out, b, 32);
}
static W y_keccak256(W a, W n) { uint8_t o[32]; size_t p = span_(a, n); keccak_(o, MEM + p, (size_t)n); return rd_(o); }
static _Noreturn W y_revert(W a, W n) { size_t p = span_(a, n); fail_(1, MEM + p, (size_t)n); }
static _Noreturn W y_invalid(void) { fail_(4, "invalid", 7); }
static W y_mcopy(W d, W s, W n) { size_t a = span_(d, n), b = span_(s, n); memmove(MEM + a, MEM + b, (size_t)n); return 0; }

/* allocator */
static W alloc_(W n) {
	W p = y_mload(0x40);
	n = (n + 31) & ~(W)31;
	span_(p, n);
	y_mstore(0x40, p + n);
	if (n) memset(MEM + (size_t)p, 0, (size_t)n);
	return p;
}
static W newarr_(W n, unsigned elem) {
	if (n >> 64 != 0) PANIC(0x41);
	W p = alloc_(32 + (elem == 1 ? n : n * elem));
	y_mstore(p, n);
	return p;
}
static W bytes_(const void *d, size_t n) { W p = newarr_(n, 1); memcpy(MEM + (size_t)p + 32, d, n); return p; }
static W zeros_(const W *unused, W words) { (void)unused; return alloc_(32 * words); }
static inline W at_(W arr, W i, W len) { if (i >= len) PANIC(0x32); return arr + 32 * i; }
static inline W dyn_(W arr, W i) { if (i >= y_mload(arr)) PANIC(0x32); return arr + 32 + 32 * i; }
static inline W byteat_(W arr, W i) { if (i >= y_mload(arr)) PANIC(0x32); return arr + 32 + i; }
static inline W mask_(unsigned b) { return b >= 256 ? ~(W)0 : (((W)1) << b) - 1; }
static inline W sx_(W v, unsigned b) { return b >= 256 ? v : (W)((SW)(v << (256 - b)) >> (256 - b)); }

/* checked arithmetic on unsigned b-bit and signed b-bit values */
static inline W uadd_(W a, W b, unsigned n) { W r = a + b; if (r < a || r > mask_(n)) PANIC(0x11); return r; }
static inline W usub_(W a, W b, unsigned n) { (void)n; if (b > a) PANIC(0x11); return a - b; }
static inline W umul_(W a, W b, unsigned n) { if (small_(a) && small_(b) && n >= 64) return (uint64_t)a * (uint64_t)b; WW r = (WW)a * (WW)b; if (r > (WW)mask_(n)) PANIC(0x11); return (W)r; }
static inline W udiv_(W a, W b) { if (b == 0) PANIC(0x12); return y_div(a, b); }
static inline W umod_(W a, W b) { if (b == 0) PANIC(0x12); return y_mod(a, b); }
static inline W srange_(signed _BitInt(514) r, unsigned n) { if (sx_((W)r, n) != (W)r || (signed _BitInt(514))(SW)(W)r != r) PANIC(0x11); return (W)r; }
static inline W sadd_(W a, W b, unsigned n) { return srange_((signed _BitInt(514))(SW)a + (SW)b, n); }
static inline W ssub_(W a, W b, unsigned n) { return srange_((signed _BitInt(514))(SW)a - (SW)b, n); }
static inline W smul_(W a, W b, unsigned n) { return srange_((signed _BitInt(514))(SW)a * (signed _BitInt(514))(SW)b, n); }
static W upow_(W a, W b, unsigned n) { W r = 1; for (; b; b--) r = umul_(r, a, n); return r; }

/* abi.encodePacked / abi.encode pieces are appended to a growing block at the free pointer */
static W pk_begin_(void) { W p = y_mload(0x40); y_mstore(p, 0); return p; }
static W pk_word_(W blk, W len, W v, unsigned nbytes) {
	size_t p = span_(blk + 32 + len, 32);
	uint8_t t[32]; wr_(t, v);
	memcpy(MEM + p, t + 32 - nbytes, nbytes);
	return len + nbytes;
}
static W pk_copy_(W blk, W len, W src, W n) { size_t d = span_(blk + 32 + len, n), s = span_(src, n); memmove(MEM + d, MEM + s, (size_t)n); return len + n; }
static W pk_end_(W blk, W len) { W e = (len + 31) & ~(W)31; if (e != len) memset(MEM + span_(blk + 32 + len, e - len), 0, (size_t)(e - len)); y_mstore(blk, len); y_mstore(0x40, blk + 32 + e); return blk; }

/* accounts holding code (create2, SSTORE2) */
static struct { uint8_t *p; size_t n; W alias; } code_[256];
static unsigned ncode_;
#define ADDR0 ((((W)0xC0DE) << 144))
static W store_code_(const uint8_t *p, size_t n) {
	if (ncode_ == 256) fail_(3, "accounts", 8);
	code_[ncode_].p = malloc(n ? n : 1);
	memcpy(code_[ncode_].p, p, n);
	code_[ncode_].n = n;
	return ADDR0 + ncode_++;
}
static int find_code_(W a) { for (unsigned i = 0; i < ncode_; i++) if (code_[i].alias && code_[i].alias == a) return (int)i; return a >= ADDR0 && a < ADDR0 + ncode_ ? (int)(a - ADDR0) : -1; }
static W y_extcodesize(W a) { int i = find_code_(a); return i < 0 ? 0 : code_[i].n; }
static W y_extcodecopy(W a, W d, W o, W n) {
	int i = find_code_(a);
	size_t p = span_(d, n);
	for (size_t k = 0; k < (size_t)n; k++) { W j = o + k; MEM[p + k] = i >= 0 && j < code_[i].n ? code_[i].p[(size_t)j] : 0; }
	return 0;
}
static W y_create2(W v, W a, W n, W salt) {      /* executes PUSH/DUP/CODECOPY/RETURN init code only */
	(void)v; (void)salt;
	size_t p = span_(a, n), len = (size_t)n;
	uint8_t *c = malloc(len + 64);
	memset(c, 0, len + 64);
	memcpy(c, MEM + p, len);
	static uint8_t m[1 << 16];
	memset(m, 0, sizeof m);
	W st[16], r = 0; int sp = 0;
	for (size_t pc = 0; pc < len; pc++) {
		uint8_t op = c[pc];
		if (op >= 0x60 && op <= 0x7f) { W x = 0; for (int k = 0; k < op - 0x5f; k++) x = x << 8 | c[pc + 1 + k]; pc += op - 0x5f; if (sp == 16) break; st[sp++] = x; }
		else if (op >= 0x80 && op <= 0x8f && sp > op - 0x80 && sp < 16) { st[sp] = st[sp - 1 - (op - 0x80)]; sp++; }
		else if (op == 0x39 && sp >= 3) { W d = st[--sp], o = st[--sp], k = st[--sp]; if (d + k > sizeof m) break; for (size_t t = 0; t < (size_t)k; t++) m[(size_t)d + t] = o + t < len ? c[(size_t)(o + t)] : 0; }
		else if (op == 0x3d && sp < 16) st[sp++] = 0;
		else if (op == 0xf3 && sp >= 2) { W o = st[--sp], k = st[--sp]; if (o + k <= sizeof m) r = store_code_(m + (size_t)o, (size_t)k); break; }
		else break;
	}
	free(c);
	return r;
}
static W sstore2_write_(W b) { W n = y_mload(b); return store_code_(MEM + span_(b + 32, n), (size_t)n); }
static void etch_(W a, W b) { W r = sstore2_write_(b); code_[(size_t)(r - ADDR0)].alias = a; }
static W sstore2_read_(W a) {
	int i = find_code_(a);
	if (i < 0) fail_(1, "InvalidPointer", 14);
	return bytes_(code_[i].p, code_[i].n);
}

/* calldata of the call in progress */
static uint8_t *cd_[DEPTH]; static size_t cdlen_[DEPTH];
static W y_calldataload(W o) {
	uint8_t t[32];
	for (int k = 0; k < 32; k++) { W j = o + k; t[k] = j >= o && j < cdlen_[depth_] ? cd_[depth_][(size_t)j] : 0; }
	return rd_(t);
}
static W y_calldatasize(void) { return cdlen_[depth_]; }
static W y_calldatacopy(W d, W o, W n) {
	size_t p = span_(d, n);
	for (size_t k = 0; k < (size_t)n; k++) { W j = o + k; MEM[p + k] = j >= o && j < cdlen_[depth_] ? cd_[depth_][(size_t)j] : 0; }
	return 0;
}
static W cdcopy_(W o, W n) { if (n >> 32) PANIC(0x41); W p = newarr_(n, 1); y_calldatacopy(p + 32, o, n); return p; }

/* abi.decode of a bytes block in memory */
static W dec_head_(W blk, W off) { if (off + 32 > y_mload(blk)) fail_(1, "abi", 3); return y_mload(blk + 32 + off); }
static W dec_dyn_(W blk, W off, int elem) {     /* elem 1: bytes, 32: words */
	W len = y_mload(blk), o = dec_head_(blk, off);
	if (o >> 64 != 0 || o + 32 > len) fail_(1, "abi", 3);
	W n = y_mload(blk + 32 + o);
	if (n >> 64 != 0 || o + 32 + n * elem > len) fail_(1, "abi", 3);
	W p = newarr_(n, elem);
	y_mcopy(p + 32, blk + 32 + o + 32, n * elem);
	return p;
}
static W dec_fix_(W blk, W off, W n) {
	if (off + 32 * n > y_mload(blk)) fail_(1, "abi", 3);
	W p = alloc_(32 * n);
	y_mcopy(p, blk + 32 + off, 32 * n);
	return p;
}
/* copy of a memory value of the caller into a fresh callee memory (external call) */
static W across_(int from, W p, int kind, W fixed) {
	W n; size_t s;
	int d = depth_; depth_ = from;
	if (kind == 0) { s = span_(p, 32 * fixed); n = fixed; }
	else { n = y_mload(p); if (n >> 64 != 0) n = MEMSZ; s = span_(p + 32, kind == 1 ? n : 32 * n); }
	depth_ = d;
	W r = kind == 0 ? alloc_(32 * n) : newarr_(n, kind == 1 ? 1 : 32);
	memcpy(MEM + (size_t)r + (kind == 0 ? 0 : 32), memory_[from] + s, (size_t)(kind == 1 ? n : 32 * n));
	return r;
}
static void fresh_(void) { memset(MEM, 0, high_[depth_] < 0x80 ? 0x80 : high_[depth_]); high_[depth_] = 0; y_mstore(0x40, 0x80); }

/* host interface */
void sol_begin(const uint8_t *cd, size_t n) { depth_ = 0; gas_ = 0; fresh_(); free(cd_[0]); cd_[0] = malloc(n ? n : 1); memcpy(cd_[0], cd, n); cdlen_[0] = n; }
static W in_(const uint8_t *p) { return rd_(p); }
void sol_put(int kind, const uint8_t *d, size_t n, uint8_t out[32]) {   /* 0 fixed array, 1 bytes, 2 dynamic array, of n units */
	W r = kind == 1 ? bytes_(d, n) : kind == 0 ? alloc_(32 * (W)n) : newarr_(n, 32);
	if (kind != 1) memcpy(MEM + (size_t)r + (kind == 2 ? 32 : 0), d, 32 * n);
	wr_(out, r);
}
int sol_peek(const uint8_t addr[32], size_t n, uint8_t *out) { W a = in_(addr); if (a + n > MEMSZ) return -1; memcpy(out, MEM + (size_t)a, n); return 0; }
size_t sol_error(uint8_t *out) { memcpy(out, revdata_, revlen_); return revlen_; }
uint64_t sol_steps(void) { return gas_; }
void sol_word_store(const uint8_t *p, size_t n, uint8_t out[32]) { wr_(out, store_code_(p, n)); }
