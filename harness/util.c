/* Memory helpers for every content, length and alignment/aliasing. */
#include <stdlib.h>
#include <string.h>
#include "sym.h"
#include <torsion/util.h>

void h_cmp(void) {
  size_t n = sym_pick(0, sym_param("max", 9), "len"), i, first = 0;
  uint8_t *x = malloc(n ? n : 1), *y = malloc(n ? n : 1);
  int lt = 0, gt = 0, r, v, eq = 1;
  (void)first;
  sym_bytes(x, n, "x");
  sym_bytes(y, n, "y");
  for (i = 0; i < n; i++) {
    lt |= eq & (x[i] < y[i]);
    gt |= eq & (x[i] > y[i]);
    eq &= x[i] == y[i];
  }
  r = torsion_memcmp(x, y, n);
  sym_assert((r < 0) == lt && (r > 0) == gt && (r == 0) == eq, "constant-time comparison orders like memcmp");
  v = torsion_memcmp_var(x, y, n);
  sym_assert((v < 0) == lt && (v > 0) == gt && (v == 0) == eq, "variable-time comparison orders like memcmp");
  sym_assert(torsion_memequal(x, y, n) == eq, "equality test");
}
void h_long(void) {
  /* a single differing position anywhere in a long buffer */
  size_t n = sym_param("n", 64), p = sym_pick(0, n - 1, "position");
  uint8_t *x = malloc(n), *y = malloc(n), d = sym_u8("difference");
  sym_bytes(x, n, "x");
  memcpy(y, x, n);
  y[p] ^= d;
  sym_assert(torsion_memequal(x, y, n) == (d == 0), "equality test");
  sym_assert((torsion_memcmp(x, y, n) == 0) == (d == 0), "comparison");
  sym_assert((torsion_memcmp(x, y, n) < 0) == (x[p] < y[p]), "order");
}
void h_xor(void) {
  size_t n = sym_pick(0, sym_param("max", 40), "len"), i;
  uint8_t *x = malloc(n ? n : 1), *y = malloc(n ? n : 1), *z = malloc(n ? n : 1), *w = malloc(n + 2), *s = malloc(n ? n : 1);
  sym_bytes(x, n, "x");
  sym_bytes(y, n, "y");
  memcpy(s, x, n);
  torsion_memxor3(z, x, y, n);
  for (i = 0; i < n; i++) sym_assert(z[i] == (x[i] ^ y[i]), "three operand xor");
  torsion_memxor3(s, s, y, n);
  sym_assert_eq(s, z, n, "three operand xor in place");
  w[0] = 1; w[n + 1] = 2;
  memcpy(w + 1, x, n);
  torsion_memxor(w + 1, y, n);
  sym_assert_eq(w + 1, z, n, "xor");
  sym_assert(w[0] == 1 && w[n + 1] == 2, "nothing else is written");
  torsion_memzero(w + 1, n);
  for (i = 0; i < n; i++) sym_assert(w[1 + i] == 0, "wiped");
  sym_assert(w[0] == 1 && w[n + 1] == 2, "nothing else is wiped");
  torsion_memxor(x, x, n);
  for (i = 0; i < n; i++) sym_assert(x[i] == 0, "xor with itself");
}
/* murmur3 against the published definition, bytewise */
void h_murmur(void) {
  size_t n = sym_pick(0, sym_param("max", 13), "len"), i;
  uint8_t *d = malloc(n ? n : 1);
  uint32_t seed = sym_u32("seed"), h = seed, k = 0, t = sym_u32("tweak"), m = sym_u32("n");
  sym_bytes(d, n, "data");
  for (i = 0; i < n; i++) {
    if ((i & 3) == 0) k = 0;
    k |= (uint32_t)d[i] << 8 * (i & 3);
    if ((i & 3) == 3 || i == n - 1) {
      k *= 0xcc9e2d51u; k = (k << 15) | (k >> 17); k *= 0x1b873593u;
      h ^= k;
      if ((i & 3) == 3) { h = (h << 13) | (h >> 19); h = h * 5 + 0xe6546b64u; }
    }
  }
  h ^= (uint32_t)n;
  h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16;
  sym_assert(murmur3_sum(d, n, seed) == h, "murmur3");
  sym_assert(murmur3_tweak(d, n, m, t) == murmur3_sum(d, n, m * 0xfba4c795u + t), "tweaked murmur3");
}
