/* Finalisation: the digest is the chaining value after the pending bytes
   followed by the prescribed padding, for every previous total length. */
#include <string.h>
#include <torsion/hash.h>
#include "sym.h"

static void put64be(unsigned char *p, uint64_t x) { int i; for (i = 0; i < 8; i++) p[i] = x >> (56 - 8 * i); }
static void put64le(unsigned char *p, uint64_t x) { int i; for (i = 0; i < 8; i++) p[i] = x >> (8 * i); }
static void put32be(unsigned char *p, uint32_t x) { int i; for (i = 0; i < 4; i++) p[i] = x >> (24 - 8 * i); }
static void put32le(unsigned char *p, uint32_t x) { int i; for (i = 0; i < 4; i++) p[i] = x >> (8 * i); }

/* update length as a function of the position */
static size_t upd(size_t pos, size_t bs) {
  size_t k = sym_pick(0, 3, "n");
  return k == 0 ? 0 : k == 1 ? bs - pos - 1 : k == 2 ? bs - pos : bs + 1;
}

/* MD-style: 0x80, zeros, length. NW = words of byte count kept by the context. */
#define DEF_MD(N, T, BS, LEN, W, PUTW, SW, OW, SIZES, FILLLEN)                \
void f_##N(void) {                                                           \
  static unsigned char m[3 * BS], tail[3 * BS], dg[4 * W * 4], ex[SW * W];     \
  T a, b;                                                                    \
  unsigned char out[SW * W];                                                  \
  size_t pos, n, tot, k, i;                                                   \
  uint64_t s[4] = {0, 0, 0, 0}, q;                                             \
  pos = sym_pick(0, BS - 1, "pos");                                          \
  n = upd(pos, BS);                                                          \
  N##_init(&a);                                                              \
  sym_bytes(a.state, sizeof a.state, "state");                                \
  sym_bytes(a.block, pos, "block");                                           \
  sym_bytes(m, n, "m");                                                       \
  for (i = 0; i < SIZES; i++) s[i] = sym_u64("size");                         \
  s[0] = (s[0] & ~(uint64_t)(BS - 1)) | pos;                                   \
  memcpy(&a.size, s, 8 * SIZES);                                              \
  /* specification side: whole blocks through a context of its own */         \
  memcpy(&b, &a, sizeof a);                                                   \
  memset(&b.size, 0, 8 * SIZES);                                              \
  memcpy(tail, a.block, pos); memcpy(tail + pos, m, n); tot = pos + n;         \
  q = s[0] + n; i = q < n; s[0] = q;                                          \
  for (k = 1; k < 4; k++) { s[k] += i; i = s[k] < i; }                    \
  tail[tot++] = 0x80;                                                         \
  while (tot % BS != BS - LEN) tail[tot++] = 0;                                \
  FILLLEN(tail + tot, s); tot += LEN;                                          \
  N##_update(&b, tail, tot);                                                   \
  for (i = 0; i < SW; i++) PUTW(ex + i * W, b.state[i]);                       \
  N##_update(&a, m, n);                                                        \
  memset(out, 0, sizeof out);                                                  \
  N##_final(&a, out); \
  sym_assert_eq(out, ex, OW * W, #N " padding and length");                     \
}
#define L64BE(p, s) put64be(p, (s)[0] << 3)
#define L64LE(p, s) put64le(p, (s)[0] << 3)
#define L128BE(p, s) (put64be(p, ((s)[1] << 3) | ((s)[0] >> 61)), put64be((p) + 8, (s)[0] << 3))
#define L256BE(p, s) (put64be(p, ((s)[3] << 3) | ((s)[2] >> 61)), put64be((p) + 8, ((s)[2] << 3) | ((s)[1] >> 61)), \
                      put64be((p) + 16, ((s)[1] << 3) | ((s)[0] >> 61)), put64be((p) + 24, (s)[0] << 3))
DEF_MD(md4, md4_t, 64, 8, 4, put32le, 4, 4, 1, L64LE)
DEF_MD(md5, md5_t, 64, 8, 4, put32le, 4, 4, 1, L64LE)
DEF_MD(ripemd160, ripemd160_t, 64, 8, 4, put32le, 5, 5, 1, L64LE)
DEF_MD(sha1, sha1_t, 64, 8, 4, put32be, 5, 5, 1, L64BE)
DEF_MD(sha224, sha224_t, 64, 8, 4, put32be, 8, 7, 1, L64BE)
DEF_MD(sha256, sha256_t, 64, 8, 4, put32be, 8, 8, 1, L64BE)
DEF_MD(sha384, sha384_t, 128, 16, 8, put64be, 8, 6, 2, L128BE)
DEF_MD(sha512, sha512_t, 128, 16, 8, put64be, 8, 8, 2, L128BE)
DEF_MD(whirlpool, whirlpool_t, 64, 32, 8, put64be, 8, 8, 4, L256BE)

/* compositions */
void f_composed(void) {
  static unsigned char m[200];
  unsigned char a[40], b[40], t[32];
  size_t n = sym_pick(0, 130, "n");
  hash160_t h1; hash256_t h2; md5sha1_t h3; sha256_t s; ripemd160_t r; md5_t d; sha1_t h;
  sym_bytes(m, n, "m");
  sha256_init(&s); sha256_update(&s, m, n); sha256_final(&s, t);
  hash160_init(&h1); hash160_update(&h1, m, n); hash160_final(&h1, a);
  ripemd160_init(&r); ripemd160_update(&r, t, 32); ripemd160_final(&r, b);
  sym_assert_eq(a, b, 20, "hash160 is ripemd160 of sha256");
  hash256_init(&h2); hash256_update(&h2, m, n); hash256_final(&h2, a);
  sha256_init(&s); sha256_update(&s, t, 32); sha256_final(&s, b);
  sym_assert_eq(a, b, 32, "hash256 is double sha256");
  md5sha1_init(&h3); md5sha1_update(&h3, m, n); md5sha1_final(&h3, a);
  md5_init(&d); md5_update(&d, m, n); md5_final(&d, b);
  sha1_init(&h); sha1_update(&h, m, n); sha1_final(&h, b + 16);
  sym_assert_eq(a, b, 36, "md5sha1 is the concatenation");
}

void f_md2(void) {
  static unsigned char m[64], tail[96], out[16], cs[16];
  md2_t a, b;
  size_t pos = sym_pick(0, 15, "pos"), n = upd(pos, 16), tot, pad;
  md2_init(&a);
  sym_bytes(a.state, 16, "state"); sym_bytes(a.checksum, 16, "sum"); sym_bytes(a.block, pos, "block"); sym_bytes(m, n, "m");
  a.pos = pos;
  memcpy(&b, &a, sizeof a); b.pos = 0;
  memcpy(tail, a.block, pos); memcpy(tail + pos, m, n); tot = pos + n;
  pad = 16 - tot % 16;
  memset(tail + tot, (int)pad, pad); tot += pad;
  md2_update(&b, tail, tot);
  memcpy(cs, b.checksum, 16);
  md2_update(&b, cs, 16);
  md2_update(&a, m, n); md2_final(&a, out);
  sym_assert_eq(out, b.state, 16, "md2 padding and checksum");
}

void f_gost94(void) {
  static unsigned char m[100], tail[128], out[32], L[32], sig[32];
  gost94_t a, b;
  size_t pos = sym_pick(0, 31, "pos"), n = upd(pos, 32), tot, i, k;
  uint64_t s[4], q, c;
  gost94_init(&a);
  sym_bytes(a.state, 32, "state"); sym_bytes(a.sigma, 32, "sigma"); sym_bytes(a.block, pos, "block"); sym_bytes(m, n, "m");
  for (i = 0; i < 4; i++) s[i] = sym_u64("size");
  s[0] = (s[0] & ~(uint64_t)31) | pos;
  memcpy(a.size, s, 32);
  memcpy(&b, &a, sizeof a); memset(b.size, 0, 32);
  memcpy(tail, a.block, pos); memcpy(tail + pos, m, n); tot = pos + n;
  q = s[0] + n; c = q < n; s[0] = q;
  for (k = 1; k < 4; k++) { s[k] += c; c = s[k] < c; }
  while (tot % 32) tail[tot++] = 0;
  gost94_update(&b, tail, tot);
  memcpy(sig, b.sigma, 32);
  for (k = 0; k < 4; k++) put64le(L + 8 * k, (s[k] << 3) | (k ? s[k - 1] >> 61 : 0));
  gost94_update(&b, L, 32);
  gost94_update(&b, sig, 32);
  gost94_update(&a, m, n); gost94_final(&a, out);
  sym_assert_eq(out, b.state, 32, "gost94 length and checksum blocks");
}

/* the control sum is the little-endian 256-bit sum of the blocks */
void f_gost94_sum(void) {
  static unsigned char m[32];
  unsigned char e[32];
  gost94_t a;
  unsigned c = 0; int i;
  gost94_init(&a);
  sym_bytes(a.sigma, 32, "sigma"); sym_bytes(m, 32, "m");
  for (i = 0; i < 32; i++) { c += (unsigned)a.sigma[i] + m[i]; e[i] = c; c >>= 8; }
  gost94_update(&a, m, 32);
  sym_assert_eq(a.sigma, e, 32, "control sum");
}

void f_keccak(void) {
  static unsigned char m[450], tail[600], out[200], ex[200];
  keccak_t a, b;
  unsigned bits = 32 * (unsigned)sym_param("bits", 8), pad = (unsigned)sym_pick(0, 3, "pad");
  size_t bs = (1600 - 2 * bits) / 8, pos, n, tot, i, ol;
  pad = pad == 0 ? 0 : pad == 1 ? 0x06 : pad == 2 ? 0x1f : 0x01;
  pos = sym_pick(0, 6, "pos"); pos = pos < 3 ? pos : pos == 3 ? bs / 2 : bs - (pos - 3);
  n = upd(pos, bs);
  ol = sym_pick(0, 3, "ol"); ol = ol == 0 ? 0 : ol == 1 ? 1 : ol == 2 ? 27 : bs;
  keccak_init(&a, bits);
  sym_bytes(a.state, sizeof a.state, "state"); sym_bytes(a.block, pos, "block"); sym_bytes(m, n, "m");
  a.pos = pos;
  memcpy(&b, &a, sizeof a); b.pos = 0;
  memcpy(tail, a.block, pos); memcpy(tail + pos, m, n); tot = pos + n;
  tail[tot++] = pad ? pad : 0x01;
  while (tot % bs) tail[tot++] = 0;
  tail[tot - 1] |= 0x80;
  keccak_update(&b, tail, tot);
  for (i = 0; i < 25; i++) put64le(ex + 8 * i, b.state[i]);
  keccak_update(&a, m, n);
  memset(out, 0, 200);
  keccak_final(&a, out, pad, ol);
  if (ol == 0) ol = bits / 8;
  memset(ex + ol, 0, 200 - ol);
  sym_assert_eq(out, ex, 200, "sponge padding and squeeze");
}

/* the named SHA-3 family members use their domain bytes and sizes */
void f_sha3_names(void) {
  static unsigned char m[200];
  unsigned char d1[64], d2[64];
  hash_t h; keccak_t k;
  static const struct { int id, bits, pad, out; } T[] = {
    {HASH_KECCAK224, 224, 1, 28}, {HASH_KECCAK256, 256, 1, 32}, {HASH_KECCAK384, 384, 1, 48}, {HASH_KECCAK512, 512, 1, 64},
    {HASH_SHA3_224, 224, 6, 28}, {HASH_SHA3_256, 256, 6, 32}, {HASH_SHA3_384, 384, 6, 48}, {HASH_SHA3_512, 512, 6, 64},
    {HASH_SHAKE128, 128, 0x1f, 16}, {HASH_SHAKE256, 256, 0x1f, 32}};
  size_t i = sym_pick(0, 9, "which"), n = sym_pick(0, 2, "n");
  n = n == 0 ? 0 : n == 1 ? (1600 - 2 * T[i].bits) / 8 - 1 : 170;
  sym_bytes(m, n, "m");
  hash_init(&h, T[i].id); hash_update(&h, m, n); hash_final(&h, d1, hash_output_size(T[i].id));
  keccak_init(&k, T[i].bits); keccak_update(&k, m, n); keccak_final(&k, d2, T[i].pad, T[i].out);
  sym_assert((int)hash_output_size(T[i].id) == T[i].out, "output size");
  sym_assert((int)hash_block_size(T[i].id) == (1600 - 2 * T[i].bits) / 8, "rate");
  sym_assert_eq(d1, d2, T[i].out, "named sponge");
}

/* BLAKE2 with its own compression, counters of full width */
static const uint8_t SG[10][16] = {
 {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},
 {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
 {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},
 {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
#define DEF_BLAKE(N, UW, WB, BS, NR, R1, R2, R3, R4, GETW, PUTW, ...)          \
static UW ror_##N(UW x, int r) { return (x >> r) | (x << (WB * 8 - r)); }      \
static const UW iv_##N[8] = {__VA_ARGS__};                                      \
static void comp_##N(UW *h, const unsigned char *blk, UW t0, UW t1, UW f) {     \
  UW v[16], w[16]; int r, i;                                                    \
  static const int ix[8][4] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}}; \
  for (i = 0; i < 16; i++) { int j; w[i] = 0; for (j = 0; j < WB; j++) w[i] |= (UW)blk[i * WB + j] << (8 * j); } \
  for (i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = iv_##N[i]; }                \
  v[12] ^= t0; v[13] ^= t1; v[14] ^= f;                                        \
  for (r = 0; r < NR; r++) for (i = 0; i < 8; i++) {                           \
    UW *a = &v[ix[i][0]], *b = &v[ix[i][1]], *c = &v[ix[i][2]], *d = &v[ix[i][3]]; \
    *a += *b + w[SG[r % 10][2 * i]]; *d = ror_##N(*d ^ *a, R1); *c += *d; *b = ror_##N(*b ^ *c, R2); \
    *a += *b + w[SG[r % 10][2 * i + 1]]; *d = ror_##N(*d ^ *a, R3); *c += *d; *b = ror_##N(*b ^ *c, R4); } \
  for (i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];                              \
}                                                                              \
void f_##N(void) {                                                             \
  static unsigned char m[3 * BS], tail[4 * BS], out[8 * WB], ex[8 * WB];        \
  N##_t a; UW h[8], t0, t1; size_t pos, n, tot, i, o, ol;                        \
  pos = sym_pick(0, BS, "pos"); n = sym_pick(0, 3, "n");                         \
  n = n == 0 ? 0 : n == 1 ? BS - pos : n == 2 ? BS - pos + 1 : BS + 1;           \
  ol = sym_pick(0, 2, "ol"); ol = ol == 0 ? 8 * WB : ol == 1 ? 1 : 5 * WB - 3;    \
  if (ol != 8 * WB) sym_assume(pos == 3);                                       \
  N##_init(&a, ol, NULL, 0);                                                    \
  sym_bytes(a.h, sizeof a.h, "h"); sym_bytes(a.t, sizeof a.t, "t"); sym_bytes(a.block, pos, "block"); sym_bytes(m, n, "m"); \
  a.pos = pos;                                                                 \
  memcpy(h, a.h, sizeof h); t0 = a.t[0]; t1 = a.t[1];                            \
  memcpy(tail, a.block, pos); memcpy(tail + pos, m, n); tot = pos + n;           \
  for (o = 0; tot - o > BS; o += BS) { t0 += BS; t1 += t0 < BS; comp_##N(h, tail + o, t0, t1, 0); } \
  t0 += tot - o; t1 += t0 < tot - o; memset(tail + tot, 0, BS - (tot - o));       \
  comp_##N(h, tail + o, t0, t1, (UW)-1);                                        \
  for (i = 0; i < 8; i++) PUTW(ex + i * WB, h[i]);                               \
  memset(ex + ol, 0, 8 * WB - ol); memset(out, 0, sizeof out);                   \
  N##_update(&a, m, n); N##_final(&a, out);                                      \
  sym_assert_eq(out, ex, sizeof ex, #N " counter and final block");             \
}
DEF_BLAKE(blake2b, uint64_t, 8, 128, 12, 32, 24, 16, 63, get64, put64le,
 UINT64_C(0x6a09e667f3bcc908), UINT64_C(0xbb67ae8584caa73b), UINT64_C(0x3c6ef372fe94f82b), UINT64_C(0xa54ff53a5f1d36f1),
 UINT64_C(0x510e527fade682d1), UINT64_C(0x9b05688c2b3e6c1f), UINT64_C(0x1f83d9abfb41bd6b), UINT64_C(0x5be0cd19137e2179))
DEF_BLAKE(blake2s, uint32_t, 4, 64, 10, 16, 12, 8, 7, get32, put32le,
 0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19)

/* parameter block of BLAKE2: digest and key length, key as first block */
void f_blake2_param(void) {
  blake2b_t a; blake2s_t b;
  static unsigned char key[64], z[128];
  size_t ol = sym_pick(1, 64, "ol"), kl = sym_pick(0, 64, "kl"), i;
  sym_bytes(key, kl, "key");
  blake2b_init(&a, ol, key, kl);
  for (i = 0; i < 8; i++)
    sym_assert(a.h[i] == (iv_blake2b[i] ^ (i ? 0 : 0x01010000 ^ (kl << 8) ^ ol)), "blake2b parameter block");
  sym_assert(a.t[0] == 0 && a.t[1] == 0 && a.pos == (kl ? 128 : 0), "blake2b start");
  memset(z, 0, sizeof z); memcpy(z, key, kl);
  if (kl) sym_assert_eq(a.block, z, 128, "blake2b key block");
  if (ol <= 32 && kl <= 32) {
    blake2s_init(&b, ol, key, kl);
    for (i = 0; i < 8; i++)
      sym_assert(b.h[i] == (iv_blake2s[i] ^ (uint32_t)(i ? 0 : 0x01010000 ^ (kl << 8) ^ ol)), "blake2s parameter block");
    sym_assert(b.t[0] == 0 && b.t[1] == 0 && b.pos == (kl ? 64 : 0), "blake2s start");
    if (kl) sym_assert_eq(b.block, z, 64, "blake2s key block");
  }
}
