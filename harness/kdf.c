/* Key derivation functions over abstract hashes (real ones natively) */
#include <stdlib.h>
#include <torsion/kdf.h>
#include <torsion/cipher.h>
#include "bf.h"
#include "hstub.h"

static unsigned char buf[4096]; static size_t bn;
static void put(const void *p, size_t n) { memcpy(buf + bn, p, n); bn += n; }
static void put1(int c) { buf[bn++] = c; }
static size_t choose(const char *n, const int *t, int k) { return (size_t)t[sym_pick(0, k - 1, n)]; }
static hash_id_t HT; static size_t HS;
static void setup(void) { HT = sym_param("type", HASH_SHA256); HS = hash_output_size(HT); abstract_hash(); }
static size_t olen(void) { static const int M[] = {0, 0, 1, 1, 1, 2, 3}, A[] = {0, 1, -1, 0, 1, 5, 0}; size_t k = sym_pick(0, 6, "len"); return M[k] * HS + A[k]; }

void h_hkdf(void) {
  static unsigned char ikm[40], salt[200], info[40], prk[64], e[200], o[201], pe[64], t[64]; size_t a, b, c, len, i, n = 0; static const int T[] = {0, 1, 33}; int r;
  setup(); a = choose("ikm", T, 3); b = sym_pick(0, 2, "salt"); b = b == 2 ? hash_block_size(HT) + 1 : b * 13; c = choose("info", T, 3); len = olen();
  sym_bytes(ikm, a, "ikm"); sym_bytes(salt, b, "salt"); sym_bytes(info, c, "info");
  HM_(HT, pe, salt, b, ikm, a);
  sym_assert(hkdf_extract(prk, HT, ikm, a, salt, b) == 1, "extract succeeds"); sym_assert_eq(prk, pe, HS, "extract");
  for (i = 0; i < len; i++) { if (i % HS == 0) { bn = 0; put(t, n); put(info, c); put1(i / HS + 1); HM_(HT, t, pe, HS, buf, bn); n = HS; } e[i] = t[i % HS]; }
  memset(o, 0x5a, sizeof o);
  r = hkdf_expand(o, HT, prk, info, c, len);
  sym_assert(r == 1, "expand succeeds"); sym_assert_eq(o, e, len, "expand"); sym_assert(o[len] == 0x5a, "nothing past the requested length");
  sym_assert(hkdf_expand(o, HT, prk, info, c, 255 * HS + 1) == 0, "more than 255 blocks refused");
  sym_assert(hkdf_expand(o, HT, prk, info, c, (size_t)-1) == 0, "overflowing length refused");
  sym_assert(hkdf_extract(o, (hash_id_t)77, ikm, a, salt, b) == 0 && hkdf_expand(o, (hash_id_t)77, prk, info, c, 1) == 0, "unknown hash refused");
}
void h_hkdf_max(void) { /* the last allowed block */
  static unsigned char prk[64], info[2], o[255 * 64 + 1], t[64]; size_t i, n = 0;
  setup(); sym_bytes(prk, HS, "prk"); sym_bytes(info, 2, "info"); o[255 * HS] = 0x5a;
  sym_assert(hkdf_expand(o, HT, prk, info, 2, 255 * HS) == 1, "255 blocks allowed");
  for (i = 1; i <= 255; i++) { bn = 0; put(t, n); put(info, 2); put1(i); HM_(HT, t, prk, HS, buf, bn); n = HS; }
  sym_assert_eq(o + 254 * HS, t, HS, "last block"); sym_assert(o[255 * HS] == 0x5a, "nothing past the requested length");
}
static void ref_pbkdf2(unsigned char *e, int T, const unsigned char *p, size_t pn, const unsigned char *s, size_t sn, unsigned it, size_t len) {
  unsigned char u[64], x[64]; size_t i, k, hs = hash_output_size(T); unsigned j;
  for (i = 0; i < len; i++) {
    if (i % hs == 0) {
      uint32_t c = i / hs + 1; bn = 0; put(s, sn); put1(c >> 24); put1(c >> 16); put1(c >> 8); put1(c); HM_(T, u, p, pn, buf, bn); memcpy(x, u, hs);
      for (j = 1; j < it; j++) { HM_(T, u, p, pn, u, hs); for (k = 0; k < hs; k++) x[k] ^= u[k]; }
    }
    e[i] = x[i % hs];
  }
}
void h_pbkdf2(void) {
  static unsigned char p[200], s[40], e[200], o[201]; size_t pn, sn, len; uint32_t it; static const int T[] = {0, 1, 33};
  setup(); pn = sym_pick(0, 3, "pn"); pn = pn == 3 ? hash_block_size(HT) + 1 : pn == 2 ? hash_block_size(HT) : pn; sn = choose("sn", T, 3); len = olen(); it = (uint32_t)sym_pick(0, 3, "iter");
  sym_bytes(p, pn, "pass"); sym_bytes(s, sn, "salt");
  ref_pbkdf2(e, HT, p, pn, s, sn, it, len); memset(o, 0x5a, sizeof o);
  sym_assert(pbkdf2_derive(o, HT, p, pn, s, sn, it, len) == 1, "succeeds"); sym_assert_eq(o, e, len, "derived key"); sym_assert(o[len] == 0x5a, "nothing past the requested length");
  sym_assert(pbkdf2_derive(o, (hash_id_t)77, p, pn, s, sn, it, len) == 0, "unknown hash refused");
  sym_assert(pbkdf2_derive(o, HT, p, pn, s, sn, it, (size_t)-1) == 0 && pbkdf2_derive(o, HT, p, pn, s, sn, it, ((size_t)1 << 32) * HS) == 0, "too long output refused");
}
void h_eb2k(void) {
  static unsigned char p[40], s[16], e[300], k[201], v[80], t[64]; size_t pn, sn, kl, vl, i, n = 0; static const int T[] = {0, 1, 33}, TS[] = {0, 8, 9, 16, 1, 7}, TV[] = {0, 1, 8, 16, 40}; int r, ok;
  setup(); pn = choose("pn", T, 3); sn = choose("sn", TS, 6); kl = olen(); vl = choose("vl", TV, 5);
  sym_bytes(p, pn, "pass"); sym_bytes(s, sn, "salt"); memset(k, 0x5a, sizeof k); memset(v, 0x5a, sizeof v);
  ok = sn == 0 || sn >= 8; r = eb2k_derive(k, v, HT, p, pn, s, sn, kl, vl);
  sym_assert(r == ok, "salt is absent or eight bytes"); if (!ok) return;
  for (i = 0; i < kl + vl; i++) { if (i % HS == 0) { bn = 0; put(t, n); put(p, pn); put(s, sn ? 8 : 0); H_(HT, t, buf, bn); n = HS; } e[i] = t[i % HS]; }
  sym_assert_eq(k, e, kl, "key"); sym_assert_eq(v, e + kl, vl, "iv"); sym_assert(k[kl] == 0x5a && v[vl] == 0x5a, "nothing past the requested lengths");
}
void h_pgp(void) {
  static unsigned char p[40], s[16], e[200], o[201], t[64], in[300]; size_t pn, sn, len, i, j, cnt, total, want; static const int T[] = {0, 1, 33}, TS[] = {0, 8}; int kind;
  setup(); kind = (int)sym_pick(0, 2, "kind"); pn = choose("pn", T, 3); sn = kind ? choose("sn", TS, 2) : 0; len = olen(); total = pn + sn;
  cnt = kind == 2 ? sym_pick(0, 5, "count") : 0; cnt = cnt == 0 ? 0 : cnt == 1 ? total : cnt == 2 ? total + 1 : cnt == 3 ? 2 * total + 7 : cnt == 4 ? 2 * total + 9 : 3 * total;
  sym_bytes(p, pn, "pass"); sym_bytes(s, sn, "salt"); memset(o, 0x5a, sizeof o);
  want = total; if (cnt > want) want = cnt; if (total == 0) want = 0;
  for (i = 0; i < want; i++) { j = i % total; in[i] = j < sn ? s[j] : p[j - sn]; }
  for (i = 0; i < len; i++) { if (i % HS == 0) { bn = 0; for (j = 0; j < i / HS; j++) put1(0); put(in, want); H_(HT, t, buf, bn); } e[i] = t[i % HS]; }
  sym_assert((kind == 0 ? pgpdf_derive_simple(o, HT, p, pn, len) : kind == 1 ? pgpdf_derive_salted(o, HT, p, pn, s, sn, len) : pgpdf_derive_iterated(o, HT, p, pn, s, sn, cnt, len)) == 1, "succeeds");
  sym_assert_eq(o, e, len, "derived key"); sym_assert(o[len] == 0x5a, "nothing past the requested length");
}
/* ---- scrypt ---- */
static uint32_t g32(const unsigned char *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static uint32_t rot(uint32_t x, int n) { return x << n | x >> (32 - n); }
static void qr(uint32_t *x, int a, int b, int c, int d) { x[b] ^= rot(x[a] + x[d], 7); x[c] ^= rot(x[b] + x[a], 9); x[d] ^= rot(x[c] + x[b], 13); x[a] ^= rot(x[d] + x[c], 18); }
static void core(unsigned char *b) {
  uint32_t x[16], y[16]; int i; for (i = 0; i < 16; i++) x[i] = y[i] = g32(b + 4 * i);
  for (i = 0; i < 4; i++) { qr(x, 0, 4, 8, 12); qr(x, 5, 9, 13, 1); qr(x, 10, 14, 2, 6); qr(x, 15, 3, 7, 11); qr(x, 0, 1, 2, 3); qr(x, 5, 6, 7, 4); qr(x, 10, 11, 8, 9); qr(x, 15, 12, 13, 14); }
  for (i = 0; i < 16; i++) { uint32_t v = x[i] + y[i]; b[4 * i] = v; b[4 * i + 1] = v >> 8; b[4 * i + 2] = v >> 16; b[4 * i + 3] = v >> 24; }
}
static void bmix(unsigned char *b, size_t r) { unsigned char x[64], y[512]; size_t i, j; memcpy(x, b + (2 * r - 1) * 64, 64); for (i = 0; i < 2 * r; i++) { for (j = 0; j < 64; j++) x[j] ^= b[64 * i + j]; core(x); memcpy(y + 64 * (i / 2 + (i & 1) * r), x, 64); } memcpy(b, y, 128 * r); }
void h_scrypt(void) {
  static unsigned char p[8], s[8], B[1024], V[8][256], e[70], o[71]; size_t N = sym_param("N", 2), r = sym_param("r", 1), q = sym_param("p", 1), i, k, z, len = 33;
  setup(); sym_bytes(p, 5, "pass"); sym_bytes(s, 4, "salt");
  ref_pbkdf2(B, HASH_SHA256, p, 5, s, 4, 1, 128 * r * q);
  for (i = 0; i < q; i++) {
    unsigned char *X = B + 128 * r * i;
    for (k = 0; k < N; k++) { memcpy(V[k], X, 128 * r); bmix(X, r); }
    for (k = 0; k < N; k++) { unsigned j = X[(2 * r - 1) * 64] & (N - 1), m; for (z = 0; z < 128 * r; z++) { unsigned char c = 0; for (m = 0; m < N; m++) c = j == m ? V[m][z] : c; X[z] ^= c; } bmix(X, r); }
  }
  ref_pbkdf2(e, HASH_SHA256, p, 5, B, 128 * r * q, 1, len);
  memset(o, 0x5a, sizeof o);
  sym_assert(scrypt_derive(o, p, 5, s, 4, N, r, q, len) == 1, "succeeds"); sym_assert_eq(o, e, len, "derived key"); sym_assert(o[len] == 0x5a, "nothing past the requested length");
}
void h_scrypt_params(void) { /* parameters outside the domain are refused before any work */
  unsigned char o[8]; uint64_t N = sym_u64("N"); uint32_t r = sym_u32("r"), p = sym_u32("p"); int bad, ret;
  setup();
  bad = N == 0 || r == 0 || p == 0 || (N & (N - 1)) != 0 || (uint64_t)r * p >= (1u << 30) || (r && N > SIZE_MAX / 128 / r);
  ret = scrypt_derive(o, o, 0, o, 0, N, r, p, 0);   /* zero-length output: parameter check only */
  sym_assert(ret == !bad, "accepted exactly for valid parameters");
}
/* ---- bcrypt over an abstract Blowfish ---- */
static void babs(blowfish_t *c, const unsigned char *a, size_t an, const unsigned char *b, size_t bl, int tag) { habs h; ha_init(&h, tag, 9); ha_update(&h, c, 16); { unsigned char l[2]; l[0] = an; l[1] = bl; ha_update(&h, l, 2); } ha_update(&h, a, an); ha_update(&h, b, bl); ha_final(&h, (unsigned char *)c, 16); }
static void bl_init(blowfish_t *c, const unsigned char *k, size_t kn, const unsigned char *s, size_t sn) { memset(c, 0, 16); babs(c, k, kn, s, sn, 1); }
static void bl_exp0(blowfish_t *c, const unsigned char *k, size_t kn) { babs(c, k, kn, k, 0, 2); }
static void bl_enc(const blowfish_t *c, uint32_t *d, size_t n) { size_t i; for (i = 0; i < n; i += 2) sym_perm(d + i, d + i, 8, c, 16, 1, "bf"); }
static void abstract_bf(void) { OVERRIDE(blowfish_init, bl_init); OVERRIDE(blowfish_expand0state, bl_exp0); OVERRIDE(blowfish_enc, bl_enc); }
static void ref_b192(unsigned char *o, const unsigned char *k, size_t kn, const unsigned char *salt, unsigned rounds) {
  static const char *T = "OrpheanBeholderScryDoubt"; blowfish_t st; uint32_t c[6], i; int j;
  blowfish_init(&st, k, kn, salt, 16);
  for (i = 0; i < 1u << rounds; i++) { blowfish_expand0state(&st, k, kn); blowfish_expand0state(&st, salt, 16); }
  for (j = 0; j < 6; j++) c[j] = (uint32_t)(unsigned char)T[4 * j] << 24 | (unsigned char)T[4 * j + 1] << 16 | (unsigned char)T[4 * j + 2] << 8 | (unsigned char)T[4 * j + 3];
  for (j = 0; j < 64; j++) blowfish_enc(&st, c, 6);
  for (j = 0; j < 24; j++) o[j] = c[j / 4] >> (24 - 8 * (j % 4));
}
static const char CS[] = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
static size_t b64(char *o, const unsigned char *d, size_t n) { size_t i, k = 0; for (i = 0; i * 6 < n * 8; i++) { unsigned b = i * 6 / 8, s = i * 6 % 8, v = (unsigned)d[b] << 8 | (b + 1 < n ? d[b + 1] : 0); o[k++] = CS[(v >> (10 - s)) & 63]; } return k; }
void h_bcrypt(void) {
  static unsigned char pass[300], salt[16], key[300], h[24]; static char o[64], e[64]; size_t pn, kn, i; unsigned rounds; char minor; int r, ok; static const int T[] = {0, 1, 71, 72, 73, 74, 254, 255, 256, 299};
  setup(); abstract_bf();
  pn = choose("pn", T, 10); rounds = (unsigned)sym_pick(3, 5, "rounds"); minor = "abx"[sym_pick(0, 2, "minor")];
  sym_bytes(pass, pn, "pass"); sym_bytes(salt, 16, "salt");
  ok = rounds >= 4 && (minor == 'a' || minor == 'b');
  r = bcrypt_generate(o, pass, pn, salt, rounds, minor); sym_assert(r == ok, "cost and version accepted"); if (!r) return;
  memset(key, 0, sizeof key); memcpy(key, pass, pn < 255 ? pn : 255);
  kn = minor == 'a' ? ((pn + 1) & 255) : (pn > 72 ? 72 : pn) + 1;
  ref_b192(h, key, kn, salt, rounds);
  memcpy(e, "$2", 2); e[2] = minor; e[3] = '$'; e[4] = '0'; e[5] = '0' + rounds; e[6] = '$'; i = 7; i += b64(e + i, salt, 16); i += b64(e + i, h, 23); e[i] = 0;
  sym_assert(i == 60, "record length"); sym_assert_eq(o, e, 61, "record");
  sym_assert(bcrypt_verify(pass, pn, o) == 1, "own record verifies");
}
void h_bcrypt_alter(void) { /* any change of a character of the hash part is refused */
  static unsigned char pass[4], salt[16]; static char o[64], rec[64]; size_t j;
  setup(); abstract_bf(); sym_bytes(pass, 3, "pass"); sym_bytes(salt, 16, "salt"); sym_assert(bcrypt_generate(o, pass, 3, salt, 4, 'b') == 1, "record");
  j = 29 + sym_pick(0, 29, "pos"); memcpy(rec, o, 61); rec[j] = (char)sym_u8("ch"); sym_assume(rec[j] != 0);
  sym_assert(bcrypt_verify(pass, 3, rec) == (rec[j] == o[j]), "altered record refused");
}
static int b64v(int c) { int i; for (i = 0; i < 64; i++) if (CS[i] == c) return i; return -1; }
void h_bcrypt_any(void) { /* arbitrary record header: accepted exactly when well formed */
  static unsigned char pass[4], salt[16], h[24]; static char rec[64]; int r, good; size_t i;
  setup(); abstract_bf();
  sym_bytes(pass, 3, "pass"); sym_bytes(salt, 16, "salt");
  bcrypt_generate(rec, pass, 3, salt, 4, 'b');
  i = sym_pick(0, 60, "pos"); if (i >= 7 && i < 60) { (void)h; r = (unsigned char)sym_u8("ch"); rec[i] = r; good = i < 60 ? b64v(r) >= 0 : 0; if (!good) sym_assert(bcrypt_verify(pass, 3, rec) == 0, "character outside the alphabet refused"); return; }
  r = (unsigned char)sym_u8("ch"); sym_assume(r != (unsigned char)rec[i]);
  if (i == 2) sym_assume(r != 'a');
  if (i == 4) sym_assume(r != '1' && r != '2'); 
  if (i == 5) sym_assume(r < '5' || r > '9');
  rec[i] = (char)r; if (i == 60) rec[61] = 0;
  sym_assert(bcrypt_verify(pass, 3, rec) == 0, "malformed record refused");
}
void h_bcrypt_ascii(void) {
  static char p[8], o[64], o2[64]; static unsigned char salt[16]; size_t n, i; int ok = 1, r;
  setup(); abstract_bf(); n = sym_pick(0, 3, "n"); sym_bytes(p, n, "pass"); sym_bytes(salt, 16, "salt"); for (i = 0; i < n; i++) sym_assume(p[i] != 0);
  for (i = 0; i < n; i++) { int c = (unsigned char)p[i]; ok &= (c >= 7 && c <= 13) || (c >= 32 && c <= 126); }
  r = bcrypt_hash(o, p, salt, 4, 'b'); sym_assert(r == ok, "printable passwords accepted"); if (!r) return;
  bcrypt_generate(o2, (unsigned char *)p, n, salt, 4, 'b'); sym_assert_eq(o, o2, 61, "same record"); sym_assert(bcrypt_check(p, o) == 1, "checks");
}
static void ref_b256(unsigned char *o, const unsigned char *k, const unsigned char *salt) {
  static const char *T = "OxychromaticBlowfishSwatDynamite"; blowfish_t st; uint32_t c[8], i; int j;
  blowfish_init(&st, k, 64, salt, 64);
  for (i = 0; i < 64; i++) { blowfish_expand0state(&st, salt, 64); blowfish_expand0state(&st, k, 64); }
  for (j = 0; j < 8; j++) c[j] = (uint32_t)(unsigned char)T[4 * j] << 24 | (unsigned char)T[4 * j + 1] << 16 | (unsigned char)T[4 * j + 2] << 8 | (unsigned char)T[4 * j + 3];
  for (j = 0; j < 64; j++) blowfish_enc(&st, c, 8);
  for (j = 0; j < 32; j++) o[j] = c[j / 4] >> (8 * (j % 4));
}
void h_bcrypt_pbkdf(void) {
  static unsigned char p[4], s[20], o[120], e[120], hp[64], hs[64], t[32], x[32]; size_t size, i, k, stride, n, cnt; unsigned rounds, j; static const int T[] = {1, 31, 32, 33, 48, 64, 65, 100};
  setup(); abstract_bf(); size = choose("size", T, 8); rounds = (unsigned)sym_pick(1, 2, "rounds"); sym_bytes(p, 3, "pass"); sym_bytes(s, 16, "salt");
  stride = (size + 31) / 32; memset(e, 0, sizeof e); n = size;
  H_(HASH_SHA512, hp, p, 3);
  for (cnt = 1; n > 0; cnt++) {
    size_t amt = (size + stride - 1) / stride; bn = 0; put(s, 16); put1(0); put1(0); put1(0); put1(cnt); H_(HASH_SHA512, hs, buf, bn);
    ref_b256(t, hp, hs); memcpy(x, t, 32);
    for (j = 1; j < rounds; j++) { H_(HASH_SHA512, hs, t, 32); ref_b256(t, hp, hs); for (k = 0; k < 32; k++) x[k] ^= t[k]; }
    if (amt > n) amt = n;
    for (i = 0; i < amt; i++) { size_t d = i * stride + cnt - 1; if (d >= size) break; e[d] = x[i]; }
    n -= i;
  }
  memset(o, 0x5a, sizeof o);
  sym_assert(bcrypt_pbkdf(o, p, 3, s, 16, rounds, size) == 1, "succeeds"); sym_assert_eq(o, e, size, "derived key"); sym_assert(o[size] == 0x5a, "nothing past the requested length");
  sym_assert(bcrypt_pbkdf(o, p, 3, s, 16, 0, size) == 0 && bcrypt_pbkdf(o, p, 0, s, 16, 1, size) == 0 && bcrypt_pbkdf(o, p, 3, s, 0, 1, size) == 0 && bcrypt_pbkdf(o, p, 3, s, 16, 1, 0) == 0 && bcrypt_pbkdf(o, p, 3, s, 16, 1, 1025) == 0, "parameters outside the domain refused");
}
