/* Streaming: the digest is a function of the concatenated bytes only. */
#include <string.h>
#include <torsion/hash.h>
#include "sym.h"

#define MAXB 700

/* second chunk length around the block boundaries relative to position p */
static size_t chunk(size_t p, size_t bs, int dense, const char *nm) {
  size_t k;
  if (dense)
    return sym_pick(0, 2 * bs + 2, nm);
  k = sym_pick(0, 11, nm);
  switch (k) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 2;
    case 3: return bs - p - (p < bs);
    case 4: return bs - p;
    case 5: return bs - p + 1;
    case 6: return 2 * bs - p - 1;
    case 7: return 2 * bs - p;
    case 8: return 2 * bs - p + 1;
    case 9: return bs;
    case 10: return 3 * bs - p;
    default: return bs / 2 + 1;
  }
}

/* any registered hash through the generic interface: three chunks vs one */
void h_generic(void) {
  static unsigned char m[MAXB];
  unsigned char d1[HASH_MAX_OUTPUT_SIZE], d2[HASH_MAX_OUTPUT_SIZE];
  hash_t a, b;
  hash_id_t id = (hash_id_t)sym_param("id", 0);
  int dense = (int)sym_param("dense", 0);
  size_t step = sym_param("step", 1);
  size_t bs = hash_block_size(id), out = hash_output_size(id);
  size_t p, n, c, i;

  sym_assert(hash_has_backend(id) && out <= HASH_MAX_OUTPUT_SIZE && bs <= HASH_MAX_BLOCK_SIZE, "registered");
  p = sym_pick(0, (bs - 1) / step, "p") * step;
  if (p >= bs) p = bs - 1;
  n = chunk(p, bs, dense, "n");
  c = dense ? 0 : sym_pick(0, 1, "c") * (bs / 2 + 3);
  sym_bytes(m, p + n + c, "m");

  memset(d1, 0, sizeof d1);
  memset(d2, 0, sizeof d2);
  hash_init(&a, id);
  hash_update(&a, m, p + n + c);
  hash_final(&a, d1, out);

  hash_init(&b, id);
  if (p) hash_update(&b, m, p);
  hash_update(&b, m + p, n);
  if (c) hash_update(&b, m + p + n, c);
  hash_final(&b, d2, out);
  sym_assert_eq(d1, d2, sizeof d1, "digest independent of chunking");

  /* byte at a time */
  if (p == 0 && c == 0) {
    hash_init(&b, id);
    for (i = 0; i < n; i++) hash_update(&b, m + i, 1);
    hash_final(&b, d2, out);
    sym_assert_eq(d1, d2, sizeof d1, "digest of byte-wise feeding");
  }
}

/* parameterised BLAKE2 with key and every output length */
#define DEF_BLAKE(N, MAXOUT, BS)                                              \
void h_##N##_keyed(void) {                                                    \
  static unsigned char m[4 * BS], kb[BS], key[MAXOUT];                         \
  unsigned char d1[MAXOUT], d2[MAXOUT], d3[MAXOUT];                           \
  N##_t a, b;                                                                 \
  size_t ol = sym_pick(1, MAXOUT, "outlen"), kl, p, n, j;                      \
  kl = sym_pick(0, 3, "keylen");                                              \
  kl = kl == 0 ? 0 : kl == 1 ? 1 : kl == 2 ? MAXOUT - 1 : MAXOUT;             \
  p = sym_pick(0, 4, "p"); p = p == 0 ? 0 : p == 1 ? 1 : p == 2 ? BS - 1 : p == 3 ? BS : BS + 1; \
  n = sym_pick(0, 3, "n"); n = n == 0 ? 0 : n == 1 ? 1 : n == 2 ? BS : BS + 1;\
  if (ol != MAXOUT && ol != 1) { sym_assume(n < 2); sym_assume(p < 2); }       \
  sym_bytes(m, p + n, "m"); sym_bytes(key, kl, "key");                        \
  memset(d1, 0, sizeof d1); memset(d2, 0, sizeof d2);                          \
  N##_init(&a, ol, key, kl); N##_update(&a, m, p + n); N##_final(&a, d1);      \
  N##_init(&b, ol, key, kl); N##_update(&b, m, p); N##_update(&b, m + p, n); N##_final(&b, d2); \
  sym_assert_eq(d1, d2, MAXOUT, "keyed digest independent of chunking");       \
  /* key is the first padded block: identical to feeding it when non-empty */ \
  if (kl && p + n > 0) {                                                      \
    memset(kb, 0, BS); memcpy(kb, key, kl); memset(d3, 0, sizeof d3);          \
    N##_init(&b, ol, NULL, 0); b.h[0] ^= (kl << 8);                            \
    for (j = 0; j < BS; j++) N##_update(&b, kb + j, 1);                        \
    N##_update(&b, m, p + n); N##_final(&b, d3);                               \
    sym_assert_eq(d1, d3, MAXOUT, "key occupies one leading block");           \
  }                                                                           \
}
DEF_BLAKE(blake2b, 64, 128)
DEF_BLAKE(blake2s, 32, 64)

/* raw sponge with any admissible rate, padding byte and output length */
void h_keccak_any(void) {
  static unsigned char m[500];
  unsigned char d1[200], d2[200];
  keccak_t a, b;
  unsigned bits = 32 + 32 * (unsigned)sym_pick(0, 23, "bits");
  size_t bs = (1600 - 2 * bits) / 8, p, n, ol;
  unsigned pad = (unsigned)sym_pick(0, 3, "pad");
  pad = pad == 0 ? 0 : pad == 1 ? 0x06 : pad == 2 ? 0x1f : 0x80;
  ol = sym_pick(0, 2, "ol"); ol = ol == 0 ? 0 : ol == 1 ? 33 : bs;
  p = sym_pick(0, 3, "p"); p = p == 0 ? 0 : p == 1 ? 1 : p == 2 ? bs - 1 : bs;
  n = sym_pick(0, 3, "n"); n = n == 0 ? 0 : n == 1 ? 1 : n == 2 ? bs - 1 : bs;
  if (bits % 128 != 0 || pad == 0x80) sym_assume(p == bs - 1 || p == 1);
  if (ol > bs) ol = bs;
  sym_bytes(m, p + n, "m");
  memset(d1, 0, sizeof d1); memset(d2, 0, sizeof d2);
  keccak_init(&a, bits); keccak_update(&a, m, p + n); keccak_final(&a, d1, pad, ol);
  keccak_init(&b, bits); keccak_update(&b, m, p); keccak_update(&b, m + p, n); keccak_final(&b, d2, pad, ol);
  sym_assert_eq(d1, d2, 200, "sponge independent of chunking");
}

/* the contexts are plain values: a copied context continues identically */
void h_copy(void) {
  static unsigned char m[300];
  unsigned char d1[HASH_MAX_OUTPUT_SIZE], d2[HASH_MAX_OUTPUT_SIZE];
  hash_t a, b;
  hash_id_t id = (hash_id_t)sym_pick(1, 32, "id");
  size_t bs = hash_block_size(id), out = hash_output_size(id), p = bs / 2 + 1, n = bs;
  sym_bytes(m, p + n, "m");
  hash_init(&a, id); hash_update(&a, m, p);
  memcpy(&b, &a, sizeof a);
  hash_update(&a, m + p, n); hash_final(&a, d1, out);
  hash_update(&b, m + p, n); hash_final(&b, d2, out);
  sym_assert_eq(d1, d2, out, "copied context continues identically");
  /* re-initialisation forgets everything */
  hash_init(&a, id); hash_update(&a, m, p + n); hash_final(&a, d2, out);
  sym_assert_eq(d1, d2, out, "re-initialised context equals a fresh one");
}
