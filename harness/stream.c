#include <string.h>
#include <torsion/stream.h>
#include "sym.h"

static uint32_t g32(const unsigned char *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static void p32(unsigned char *p, uint32_t x) { p[0] = x; p[1] = x >> 8; p[2] = x >> 16; p[3] = x >> 24; }
static uint32_t rl(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static const char SIG[2][17] = {"expand 16-byte k", "expand 32-byte k"};

/* ---- reference permutations ---- */
static void cq(uint32_t *x, int a, int b, int c, int d) {
  x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 12);
  x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 7);
}
static void chacha_perm(uint32_t *x) {
  int i;
  for (i = 0; i < 10; i++) {
    cq(x, 0, 4, 8, 12); cq(x, 1, 5, 9, 13); cq(x, 2, 6, 10, 14); cq(x, 3, 7, 11, 15);
    cq(x, 0, 5, 10, 15); cq(x, 1, 6, 11, 12); cq(x, 2, 7, 8, 13); cq(x, 3, 4, 9, 14);
  }
}
static void sq(uint32_t *x, int a, int b, int c, int d) {
  x[b] ^= rl(x[a] + x[d], 7); x[c] ^= rl(x[b] + x[a], 9); x[d] ^= rl(x[c] + x[b], 13); x[a] ^= rl(x[d] + x[c], 18);
}
static void salsa_perm(uint32_t *x) {
  int i;
  for (i = 0; i < 10; i++) {
    sq(x, 0, 4, 8, 12); sq(x, 5, 9, 13, 1); sq(x, 10, 14, 2, 6); sq(x, 15, 3, 7, 11);
    sq(x, 0, 1, 2, 3); sq(x, 5, 6, 7, 4); sq(x, 10, 11, 8, 9); sq(x, 15, 12, 13, 14);
  }
}
/* ---- reference key/nonce set-up; in16 are the sixteen bytes after the key ---- */
static void chacha_words(uint32_t *s, const unsigned char *k, size_t kl, const unsigned char *in16) {
  int i; const char *c = SIG[kl == 32];
  for (i = 0; i < 4; i++) s[i] = g32((const unsigned char *)c + 4 * i);
  for (i = 0; i < 8; i++) s[4 + i] = g32(k + (4 * i) % kl);
  for (i = 0; i < 4; i++) s[12 + i] = g32(in16 + 4 * i);
}
static void salsa_words(uint32_t *s, const unsigned char *k, size_t kl, const unsigned char *in16) {
  int i; const char *c = SIG[kl == 32];
  for (i = 0; i < 4; i++) { s[5 * i] = g32((const unsigned char *)c + 4 * i); s[1 + i] = g32(k + 4 * i); s[11 + i] = g32(k + (16 + 4 * i) % kl); s[6 + i] = g32(in16 + 4 * i); }
}
/* the sixteen input bytes for a (short) nonce and counter */
static void chacha_in(unsigned char *in, const unsigned char *n, size_t nl, uint64_t ctr) {
  if (nl == 16) { memcpy(in, n, 16); return; }
  p32(in, (uint32_t)ctr);
  if (nl == 8) { p32(in + 4, ctr >> 32); memcpy(in + 8, n, 8); } else memcpy(in + 4, n, 12);
}
static void salsa_in(unsigned char *in, const unsigned char *n, size_t nl, uint64_t ctr) {
  if (nl == 16) { memcpy(in, n, 16); return; }
  memcpy(in, n, nl);
  if (nl == 8) { p32(in + 8, (uint32_t)ctr); p32(in + 12, ctr >> 32); } else p32(in + 12, (uint32_t)ctr);
}

#define MAXM 200
#define DEF(N, CW, OUTW)                                                       \
static void N##_ref(unsigned char *ks, size_t blocks, const unsigned char *key, size_t kl, const unsigned char *nonce, size_t nl, uint64_t ctr) { \
  unsigned char sub[32], in[16]; uint32_t s[16], x[16]; size_t b; int i; uint64_t c; static const int ow[8] = OUTW; \
  if (nl >= 24) {                                                              \
    N##_words(s, key, kl, nonce); memcpy(x, s, 64); N##_perm(x);                 \
    for (i = 0; i < 8; i++) p32(sub + 4 * i, x[ow[i]]);                          \
    key = sub; kl = 32; nonce += 16; nl -= 16;                                  \
  }                                                                            \
  N##_in(in, nonce, nl, ctr);                                                   \
  N##_words(s, key, kl, in);                                                    \
  for (b = 0; b < blocks; b++) {                                               \
    memcpy(x, s, 64); N##_perm(x);                                              \
    for (i = 0; i < 16; i++) p32(ks + 64 * b + 4 * i, x[i] + s[i]);              \
    s[CW] += 1; s[CW + 1] += s[CW] < 1;                                          \
  }                                                                            \
}                                                                              \
void h_##N(void) {                                                             \
  static unsigned char key[32], nonce[28], m[MAXM], c1[MAXM], ex[256], ks[256]; \
  N##20_t a; size_t kl = 16 + 16 * sym_pick(0, 1, "kl"), nl, n, p, q, i; uint64_t ctr; \
  nl = sym_pick(0, 4, "nl"); nl = nl == 0 ? 8 : nl == 1 ? 12 : nl == 2 ? 16 : nl == 3 ? 24 : 28; \
  n = sym_pick(0, 7, "n"); n = n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 63 : n == 3 ? 64 : n == 4 ? 65 : n == 5 ? 127 : n == 6 ? 128 : 193; \
  p = sym_pick(0, 5, "p"); p = p == 0 ? 0 : p == 1 ? 1 : p == 2 ? 63 : p == 3 ? 64 : p == 4 ? 65 : 100; \
  q = sym_pick(0, 3, "q"); q = q == 0 ? 0 : q == 1 ? 1 : q == 2 ? 28 : 64;          \
  if (p + q > n) { sym_assume(q == 0); sym_assume(p == 0); }                      \
  sym_bytes(key, kl, "key"); sym_bytes(nonce, nl, "nonce"); sym_bytes(m, n, "m"); ctr = sym_u64("ctr"); \
  N##_ref(ks, (n + 63) / 64, key, kl, nonce, nl, ctr);                            \
  for (i = 0; i < n; i++) ex[i] = m[i] ^ ks[i];                                   \
  N##20_init(&a, key, kl, nonce, nl, ctr);                                        \
  N##20_crypt(&a, c1, m, p); N##20_crypt(&a, c1 + p, m + p, q); N##20_crypt(&a, c1 + p + q, m + p + q, n - p - q); \
  sym_assert_eq(c1, ex, n, #N "20 key stream");                                  \
  N##20_init(&a, key, kl, nonce, nl, ctr); N##20_crypt(&a, c1, c1, n);             \
  sym_assert_eq(c1, m, n, #N "20 in place decryption");                          \
  /* sub-key derivation */                                                     \
  if (nl >= 16 && n == 0) { uint32_t x[16]; unsigned char d1[32], d2[32]; static const int ow[8] = OUTW; \
    N##_words(x, key, kl, nonce); N##_perm(x); for (i = 0; i < 8; i++) p32(d1 + 4 * i, x[ow[i]]); \
    N##20_derive(d2, key, kl, nonce); sym_assert_eq(d1, d2, 32, #N "20 sub-key"); }        \
}
#define OC {0,1,2,3,12,13,14,15}
#define OS {0,5,10,15,6,7,8,9}
#define chacha_perm_ chacha_perm
DEF(chacha, 12, OC)
DEF(salsa, 8, OS)

/* ARC4: generator from any permutation state */
void h_arc4(void) {
  static unsigned char m[8], c1[8], ex[8], s[256];
  arc4_t a; unsigned i0 = (unsigned)sym_pick(0, 3, "i"), j0, i, j, t; size_t n = 5, p = sym_pick(0, 5, "p"), k;
  i0 = i0 == 0 ? 0 : i0 == 1 ? 1 : i0 == 2 ? 253 : 255;
  memset(&a, 0, sizeof a);
  sym_bytes(a.s, 256, "s"); j0 = sym_u8("j"); sym_bytes(m, n, "m");
  a.i = i0; a.j = j0;
  memcpy(s, a.s, 256); i = i0; j = j0;
  for (k = 0; k < n; k++) {
    i = (i + 1) & 255; j = (j + s[i]) & 255; t = s[i]; s[i] = s[j]; s[j] = t;
    ex[k] = m[k] ^ s[(s[i] + s[j]) & 255];
  }
  arc4_crypt(&a, c1, m, p); arc4_crypt(&a, c1 + p, m + p, n - p);
  sym_assert_eq(c1, ex, n, "arc4 generator");
}
void h_arc4_key(void) {
  static unsigned char key[256], s[256];
  arc4_t a; size_t kl, i; unsigned j, t;
  kl = sym_param("kl", 5);
  memset(key, 0x5a, 256);
  sym_bytes(key + kl - 1, 1, "key");
  for (i = 0; i < 256; i++) s[i] = i;
  for (i = 0, j = 0; i < 256; i++) { j = (j + s[i] + key[i % kl]) & 255; t = s[i]; s[i] = s[j]; s[j] = t; }
  arc4_init(&a, key, kl);
  sym_assert_eq(a.s, s, 256, "arc4 key schedule");
  sym_assert(a.i == 0 && a.j == 0, "arc4 indices");
}
