#include <string.h>
#include <torsion/mac.h>
#include "sym.h"

static uint64_t rotl(uint64_t x, int b) { return (x << b) | (x >> (64 - b)); }
static uint64_t get64(const unsigned char *p) { uint64_t r = 0; int i; for (i = 7; i >= 0; i--) r = (r << 8) | p[i]; return r; }
static void rounds(uint64_t *v, int n) {
  while (n--) {
    v[0] += v[1]; v[1] = rotl(v[1], 13) ^ v[0]; v[0] = rotl(v[0], 32);
    v[2] += v[3]; v[3] = rotl(v[3], 16) ^ v[2];
    v[0] += v[3]; v[3] = rotl(v[3], 21) ^ v[0];
    v[2] += v[1]; v[1] = rotl(v[1], 17) ^ v[2]; v[2] = rotl(v[2], 32);
  }
}
static void init(uint64_t *v, const unsigned char *key) {
  v[0] = get64(key) ^ UINT64_C(0x736f6d6570736575); v[1] = get64(key + 8) ^ UINT64_C(0x646f72616e646f6d);
  v[2] = get64(key) ^ UINT64_C(0x6c7967656e657261); v[3] = get64(key + 8) ^ UINT64_C(0x7465646279746573);
}
static void absorb(uint64_t *v, uint64_t w) { v[3] ^= w; rounds(v, 2); v[0] ^= w; }
static uint64_t finish(uint64_t *v) { v[2] ^= 0xff; rounds(v, 4); return v[0] ^ v[1] ^ v[2] ^ v[3]; }

static uint64_t spec(const unsigned char *d, size_t n, const unsigned char *key) {
  uint64_t v[4]; unsigned char last[8]; size_t i;
  init(v, key);
  for (i = 0; i + 8 <= n; i += 8) absorb(v, get64(d + i));
  memset(last, 0, 8); memcpy(last, d + i, n - i); last[7] = (unsigned char)n;
  absorb(v, get64(last));
  return finish(v);
}
static size_t len(void) { size_t k = sym_pick(0, 45, "len"); return k <= 40 ? k : 213 + k; /* 254..258 */ }

void h_sum(void) {
  static unsigned char d[300], key[16];
  size_t n = len();
  sym_bytes(d, n, "data"); sym_bytes(key, 16, "key");
  sym_assert(siphash_sum(d, n, key) == spec(d, n, key), "siphash-2-4");
}
void h_mod(void) {
  static unsigned char d[300], key[16];
  size_t n = sym_pick(0, 9, "len");
  uint64_t m = sym_u64("mod"), a, p00, p01, p10, p11, mid, r;
  sym_bytes(d, n, "data"); sym_bytes(key, 16, "key");
  a = spec(d, n, key);
  r = siphash_mod(d, n, key, m);
#if !defined(TORSION_NO_INT128)
  sym_assert(r == (uint64_t)(((unsigned __int128)a * m) >> 64), "multiply-shift");
#else
  p00 = (a & 0xffffffff) * (m & 0xffffffff); p01 = (a >> 32) * (m & 0xffffffff);
  p10 = (m >> 32) * (a & 0xffffffff); p11 = (a >> 32) * (m >> 32);
  mid = (p00 >> 32) + (p01 & 0xffffffff) + (p10 & 0xffffffff);
  sym_assert(r == p11 + (p01 >> 32) + (p10 >> 32) + (mid >> 32), "multiply-shift");
#endif
}
void h_fixed(void) {
  static unsigned char key[32];
  uint64_t x = sym_u64("num"), v[4]; int i;
  sym_bytes(key, 32, "key");
  init(v, key); absorb(v, x);
  sym_assert(siphash128_sum(x, key) == finish(v), "siphash of one word");
  for (i = 0; i < 4; i++) v[i] = get64(key + 8 * i);
  absorb(v, x);
  sym_assert(siphash256_sum(x, key) == finish(v), "siphash with a 256-bit key");
}
