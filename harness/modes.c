/* Cipher modes over an arbitrary block cipher: for the solver the block cipher
   is an uninterpreted keyed permutation, natively it is the real one. */
#include <string.h>
#include <stdlib.h>
#include <torsion/cipher.h>
#include "sym.h"

typedef struct { size_t n; unsigned char key[64]; } stubkey;

static int stub_init(cipher_t *c, cipher_id_t type, const unsigned char *key, size_t n) {
  stubkey *s = (stubkey *)&c->ctx;
  c->type = type; c->size = cipher_block_size(type);
  if (n != cipher_key_size(type)) return 0;
  s->n = n; memcpy(s->key, key, n); return 1;
}
static void stub_enc(const cipher_t *c, unsigned char *dst, const unsigned char *src) { const stubkey *s = (const stubkey *)&c->ctx; sym_perm(dst, src, c->size, s->key, s->n, 1, "blk"); }
static void stub_dec(const cipher_t *c, unsigned char *dst, const unsigned char *src) { const stubkey *s = (const stubkey *)&c->ctx; sym_perm(dst, src, c->size, s->key, s->n, 0, "blk"); }
static void abstract(void) {
  OVERRIDE(cipher_init, stub_init);
  OVERRIDE(cipher_encrypt, stub_enc);
  OVERRIDE(cipher_decrypt, stub_dec);
}

#define MAXN 96
static cipher_t K1, K2;
static size_t B;
static void xr(unsigned char *z, const unsigned char *a, const unsigned char *b, size_t n) { size_t i; for (i = 0; i < n; i++) z[i] = a[i] ^ b[i]; }
static void E(const cipher_t *k, unsigned char *o, const unsigned char *i) { cipher_encrypt(k, o, i); }
static void inc(unsigned char *x, size_t n) { unsigned c = 1; while (n--) { c += x[n]; x[n] = c & 255; c >>= 8; } }

/* ---- defining equations of the unauthenticated modes; returns ciphertext length or -1 ---- */
static long ref_enc(int mode, unsigned char *o, const unsigned char *m, size_t n, const unsigned char *iv) {
  unsigned char prev[16], t[16], u[16], pad[MAXN + 16]; size_t i, j, full = n / B, r = n % B;
  memcpy(prev, iv, B);
  switch (mode) {
    case CIPHER_MODE_RAW:
      if (r) return -1;
      for (i = 0; i < full; i++) E(&K1, o + i * B, m + i * B);
      return n;
    case CIPHER_MODE_ECB: case CIPHER_MODE_CBC:
      memcpy(pad, m, n); memset(pad + n, (int)(B - r), B - r);
      for (i = 0; i <= full; i++) {
        if (mode == CIPHER_MODE_CBC) xr(t, pad + i * B, prev, B); else memcpy(t, pad + i * B, B);
        E(&K1, prev, t); memcpy(o + i * B, prev, B);
      }
      return (full + 1) * B;
    case CIPHER_MODE_CTS:
      if (!full) return -1;
      for (i = 0; i < full; i++) { xr(t, m + i * B, prev, B); E(&K1, prev, t); memcpy(o + i * B, prev, B); }
      memset(t, 0, B); memcpy(t, m + full * B, r); xr(t, t, prev, B); E(&K1, u, t);
      memcpy(o + (full - 1) * B, u, B); memcpy(o + full * B, prev, r);
      return n;
    case CIPHER_MODE_XTS:
      if (!full) return -1;
      E(&K2, prev, iv);
      for (i = 0; i < full + (r != 0); i++) {
        unsigned c = prev[B - 1] >> 7;
        if (i < full) memcpy(t, m + i * B, B);
        else { memcpy(t, o + (i - 1) * B, B); memcpy(o + i * B, t, r); memcpy(t, m + i * B, r); }
        xr(t, t, prev, B); E(&K1, u, t); xr(u, u, prev, B);
        memcpy(o + (i < full ? i : i - 1) * B, u, B);
        for (j = B - 1; j > 0; j--) prev[j] = (unsigned char)(prev[j] << 1 | prev[j - 1] >> 7);
        prev[0] = (unsigned char)(prev[0] << 1); prev[0] ^= c ? (B == 16 ? 0x87 : 0x1b) : 0;
      }
      return n;
    default:
      for (i = 0; i < n; i += B) {
        size_t k = n - i < B ? n - i : B;
        E(&K1, t, prev); xr(o + i, m + i, t, k);
        if (mode == CIPHER_MODE_CTR) inc(prev, B);
        else if (mode == CIPHER_MODE_CFB) memcpy(prev, o + i, k);
        else memcpy(prev, t, B);
      }
      return n;
  }
}

static unsigned char *dup_(const unsigned char *p, size_t n) { unsigned char *q = malloc(n + (n == 0)); memcpy(q, p, n); return q; }

/* run the buffered interface over up to three pieces; total length or -1 */
static long run(cipher_stream_t *c, unsigned char *out, const unsigned char *in, size_t n, size_t p, size_t q) {
  size_t cut[4], i, tot = 0, w; cut[0] = 0; cut[1] = p; cut[2] = p + q; cut[3] = n;
  for (i = 0; i < 3; i++) {
    size_t l = cut[i + 1] - cut[i], cap = cipher_stream_update_size(c, l);
    unsigned char *src = dup_(in + cut[i], l), *dst = malloc(cap + (cap == 0));
    w = 99999; cipher_stream_update(c, dst, &w, src, l);
    sym_assert(w <= cap, "update stays within the reported size");
    memcpy(out + tot, dst, w); tot += w; free(src); free(dst);
  }
  { size_t cap = cipher_stream_final_size(c); unsigned char *dst = malloc(cap + (cap == 0)); int r;
    sym_assert(cap <= CIPHER_MAX_FINAL_SIZE, "final size below its maximum");
    w = 99999; r = cipher_stream_final(c, dst, &w);
    if (!r) { free(dst); return -1; }
    sym_assert(w <= cap, "final stays within the reported size");
    memcpy(out + tot, dst, sym_is_symbolic(w) ? cap : w); tot += w; free(dst); }
  return tot;
}
static cipher_id_t type; static size_t KL;
static void setup(void) {
  B = sym_param("block", 16); type = B == 16 ? CIPHER_AES128 : CIPHER_DES;
  KL = B == 16 ? 16 : 8;
  abstract();
}
static size_t lens(size_t k) { static const int mul[] = {0, 0, 1, 1, 1, 2, 2, 3, 3}, off[] = {0, 1, -1, 0, 1, -1, 0, -3, 2}; return mul[k] * B + off[k]; }

void h_mode(void) {
  static unsigned char key[32], iv[16], m[MAXN], c1[MAXN + 64], ex[MAXN + 64]; static cipher_stream_t s;
  int mode = (int)sym_param("mode", CIPHER_MODE_CBC); size_t n, p, q, ivl, kl; long L, e;
  setup();
  ivl = mode <= CIPHER_MODE_ECB ? 0 : B; kl = mode == CIPHER_MODE_XTS ? 2 * KL : KL;
  n = lens(sym_pick(0, sym_param("nmax", 8), "n")); p = lens(sym_pick(0, sym_param("pmax", 6), "p")); q = lens(sym_pick(0, sym_param("qmax", 3), "q")); sym_assume(p + q <= n);
  sym_bytes(key, kl, "key"); sym_bytes(iv, B, "iv"); sym_bytes(m, n, "m");
  cipher_init(&K1, type, key, KL); if (kl > KL) cipher_init(&K2, type, key + KL, KL);
  if (kl > KL) sym_assume(key[0] != key[KL]);
  sym_assert(cipher_stream_init(&s, type, mode, 1, key, kl, iv, ivl), "encryption initialises");
  e = ref_enc(mode, ex, m, n, iv); L = run(&s, c1, m, n, p, q);
  sym_assert(L == e, "length of the ciphertext");
  if (e < 0) return;
  sym_assert_eq(c1, ex, e, "ciphertext follows the mode's equations");
  if (p + q > (size_t)e) return;
  sym_assert(cipher_stream_init(&s, type, mode, 0, key, kl, iv, ivl), "decryption initialises");
  L = run(&s, c1, ex, e, p, q);
  sym_assert(L == (long)n, "length of the plaintext");
  sym_assert_eq(c1, m, n, "decryption restores the plaintext");
}

/* XTS refuses exactly the keys whose halves coincide */
void h_xts_key(void) {
  static unsigned char key[32], iv[16]; static cipher_stream_t s; int eq = 1; size_t i;
  setup(); sym_bytes(key, 2 * KL, "key"); sym_bytes(iv, B, "iv");
  for (i = 0; i < KL; i++) eq &= key[i] == key[KL + i];
  sym_assert(cipher_stream_init(&s, type, CIPHER_MODE_XTS, 1, key, 2 * KL, iv, B) == !eq, "equal key halves are refused, others accepted");
}
/* raw mode functions, in place and one call at a time */
void h_inplace(void) {
  static unsigned char key[32], iv[16], m[MAXN], c1[MAXN], ex[MAXN + 64]; static cipher_stream_t s;
  int mode = (int)sym_param("mode", CIPHER_MODE_CBC); size_t n, ivl, kl;
  setup();
  ivl = mode <= CIPHER_MODE_ECB ? 0 : B; kl = mode == CIPHER_MODE_XTS ? 2 * KL : KL;
  n = B * sym_pick(0, 3, "n");
  sym_bytes(key, kl, "key"); sym_bytes(iv, B, "iv"); sym_bytes(m, n, "m");
  if (kl > KL) { sym_assume(key[0] != key[KL]); cipher_init(&K2, type, key + KL, KL); }
  cipher_init(&K1, type, key, KL);
  if (n || mode != CIPHER_MODE_XTS) { if (ref_enc(mode == CIPHER_MODE_CTS ? CIPHER_MODE_CBC : mode, ex, m, n, iv) < 0) return; }
  memcpy(c1, m, n);
  sym_assert(cipher_stream_init(&s, type, mode, 1, key, kl, iv, ivl), "init");
  if (mode <= CIPHER_MODE_XTS && mode != CIPHER_MODE_RAW) sym_assert(cipher_stream_set_padding(&s, 0) == 1, "padding off");
  sym_assert(cipher_stream_crypt(&s, c1, c1, n) == 1, "crypt");
  sym_assert_eq(c1, ex, n, "in place encryption");
  sym_assert(cipher_stream_init(&s, type, mode, 0, key, kl, iv, ivl), "init");
  if (mode <= CIPHER_MODE_XTS && mode != CIPHER_MODE_RAW) sym_assert(cipher_stream_set_padding(&s, 0) == 1, "padding off");
  sym_assert(cipher_stream_crypt(&s, c1, c1, n) == 1, "crypt");
  sym_assert_eq(c1, m, n, "in place decryption");
  if (mode <= CIPHER_MODE_XTS) sym_assert(cipher_stream_crypt(&s, c1, c1, n + 1) == 0, "partial blocks are refused");
}

/* one-shot interface agrees with the same equations */
void h_static(void) {
  static unsigned char key[32], iv[16], m[MAXN], ex[MAXN + 64]; unsigned char *o, *pt;
  int mode = (int)sym_param("mode", CIPHER_MODE_CBC); size_t n, ivl, kl, w; long e; int r;
  setup();
  ivl = mode <= CIPHER_MODE_ECB ? 0 : B; kl = mode == CIPHER_MODE_XTS ? 2 * KL : KL;
  n = lens(sym_pick(0, 8, "n"));
  sym_bytes(key, kl, "key"); sym_bytes(iv, B, "iv"); sym_bytes(m, n, "m");
  if (kl > KL) { sym_assume(key[0] != key[KL]); cipher_init(&K2, type, key + KL, KL); }
  cipher_init(&K1, type, key, KL);
  e = ref_enc(mode, ex, m, n, iv);
  o = malloc(CIPHER_MAX_ENCRYPT_SIZE(n)); pt = malloc(CIPHER_MAX_DECRYPT_SIZE(MAXN + 64));
  r = cipher_static_encrypt(o, &w, type, mode, key, kl, iv, ivl, m, n);
  sym_assert(r == (e >= 0), "one-shot encryption succeeds exactly for allowed lengths");
  if (!r) { sym_assert(w == 0, "no output on failure"); return; }
  sym_assert(w == (size_t)e, "length"); sym_assert_eq(o, ex, e, "one-shot ciphertext");
  r = cipher_static_decrypt(pt, &w, type, mode, key, kl, iv, ivl, o, e);
  sym_assert(r == 1, "one-shot decryption"); sym_assert(w == n, "length"); sym_assert_eq(pt, m, n, "one-shot plaintext");
}

/* ---- C03: padding ---- */
static int good_pad(const unsigned char *b, size_t size, size_t *len) {
  size_t k = b[size - 1], i; int ok = k >= 1 && k <= size;
  for (i = 0; i < size; i++) ok &= (size - i > k) | (b[i] == k);
  *len = ok ? size - k : 0; return ok;
}
void h_unpad(void) {
  static unsigned char b[16]; unsigned char *src, *dst; size_t size = sym_param("block", 16), l = 77, el; int r, er;
  src = malloc(size); dst = malloc(size);
  sym_bytes(src, size, "blk"); memcpy(b, src, size);
  er = good_pad(b, size, &el);
  r = pkcs7_unpad(dst, &l, src, size);
  sym_assert(r == er, "accepted exactly when well formed");
  sym_assert(l == el, "length after removal");
  sym_assert(!er || l < size, "some padding removed");
  { size_t i; int ok = 1; for (i = 0; i < size; i++) ok &= (i >= el) | (dst[i] == b[i]); sym_assert(!er || ok, "data bytes kept"); }
  if (sym_param("alias", 0)) { r = pkcs7_unpad(src, &l, src, size); sym_assert(r == er && l == el, "in place"); }
}
void h_pad(void) {
  static unsigned char m[16]; size_t size = sym_param("block", 16), n = sym_pick(0, size - 1, "n"), l = 77, i; unsigned char *src = malloc(n + (n == 0)), *dst = malloc(size), *back = malloc(size);
  sym_bytes(src, n, "m"); memcpy(m, src, n);
  pkcs7_pad(dst, src, n, size);
  sym_assert_eq(dst, m, n, "data kept"); for (i = n; i < size; i++) sym_assert(dst[i] == size - n, "pad value");
  sym_assert(pkcs7_unpad(back, &l, dst, size) == 1 && l == n, "padding comes off again");
  sym_assert_eq(back, m, n, "round trip");
}
/* decrypting arbitrary ciphertext of any length */
void h_dec_any(void) {
  static unsigned char key[16], iv[16], c[MAXN], o[MAXN + 64], pl[MAXN], t[16]; static cipher_stream_t s; size_t n, el = 0, i, p; long L; int ok, mode = (int)sym_param("mode", CIPHER_MODE_CBC);
  setup();
  n = lens(sym_pick(0, 8, "n")); p = lens(sym_pick(0, 5, "p")); sym_assume(p <= n);
  sym_bytes(key, KL, "key"); sym_bytes(iv, B, "iv"); sym_bytes(c, n, "c");
  cipher_init(&K1, type, key, KL);
  sym_assert(cipher_stream_init(&s, type, mode, 0, key, KL, iv, mode == CIPHER_MODE_CBC ? B : 0), "init");
  ok = n % B == 0 && n > 0;
  for (i = 0; ok && i < n; i += B) { cipher_decrypt(&K1, t, c + i); if (mode == CIPHER_MODE_CBC) xr(t, t, i ? c + i - B : iv, B); memcpy(pl + i, t, B); }
  if (ok) ok = good_pad(pl + n - B, B, &el);
  L = run(&s, o, c, n, p, 0);
  sym_assert((L >= 0) == ok, "accepted exactly when length and padding are right");
  if (L < 0) return;
  sym_assert((size_t)L == n - B + el, "length of the data");
  { int same = 1; for (i = 0; i < n; i++) same &= (i >= (size_t)L) | (o[i] == pl[i]); sym_assert(same, "data"); }
}

/* ---- C04: authenticated modes ---- */
/* GF(2^128) product in the GCM bit order: Horner over the bits of x */
static void gmul(unsigned char *z, const unsigned char *x, const unsigned char *h) {
  uint64_t a = 0, b = 0, hh = 0, hl = 0, m, c; int i;
  for (i = 0; i < 8; i++) { hh = hh << 8 | h[i]; hl = hl << 8 | h[8 + i]; }
  for (i = 127; i >= 0; i--) {
    c = -(b & 1); b = b >> 1 | a << 63; a = (a >> 1) ^ (c & UINT64_C(0xe100000000000000));
    m = -(uint64_t)((x[i / 8] >> (7 - i % 8)) & 1);
    a ^= hh & m; b ^= hl & m;
  }
  for (i = 0; i < 8; i++) { z[i] = (unsigned char)(a >> (56 - 8 * i)); z[8 + i] = (unsigned char)(b >> (56 - 8 * i)); }
}
static void ghash_part(unsigned char *y, const unsigned char *h, const unsigned char *d, size_t n) {
  unsigned char t[16]; size_t i;
  for (i = 0; i < n; i += 16) { memset(t, 0, 16); memcpy(t, d + i, n - i < 16 ? n - i : 16); xr(t, t, y, 16); gmul(y, t, h); }
}
static void be64(unsigned char *p, uint64_t v) { int i; for (i = 7; i >= 0; i--) { p[i] = v & 255; v >>= 8; } }
static void ghash_len(unsigned char *y, const unsigned char *h, uint64_t al, uint64_t cl) {
  unsigned char t[16]; be64(t, al * 8); be64(t + 8, cl * 8); xr(t, t, y, 16); gmul(y, t, h);
}
static int ref_gcm(unsigned char *c, unsigned char *tag, const unsigned char *m, size_t n, const unsigned char *iv, size_t ivl, const unsigned char *ad, size_t al) {
  unsigned char h[16], j[16], y[16], t[16], z[16]; size_t i;
  memset(z, 0, 16); E(&K1, h, z);
  if (ivl == 12) { memcpy(j, iv, 12); j[12] = j[13] = j[14] = 0; j[15] = 1; }
  else { memset(j, 0, 16); ghash_part(j, h, iv, ivl); ghash_len(j, h, 0, ivl); }
  E(&K1, tag, j);
  for (i = 0; i < n; i += 16) { inc(j + 12, 4); E(&K1, t, j); xr(c + i, m + i, t, n - i < 16 ? n - i : 16); }
  memset(y, 0, 16); ghash_part(y, h, ad, al); ghash_part(y, h, c, n); ghash_len(y, h, al, n);
  xr(tag, tag, y, 16);
  return 1;
}
static void cm(unsigned char *x, const unsigned char *d) { unsigned char t[16]; xr(t, x, d, 16); E(&K1, x, t); }
static int ref_ccm(unsigned char *c, unsigned char *tag, const unsigned char *m, size_t n, const unsigned char *iv, size_t ivl, const unsigned char *ad, size_t al, size_t M) {
  unsigned char x[16], b[16], a[16]; static unsigned char buf[65600]; size_t i, L = 2, h, k;
  if (ivl < 7) return 0;
  if (ivl > 13) ivl = 13;           /* L = 2 for every length explored */
  memset(b, 0, 16); b[0] = (al ? 64 : 0) + 8 * ((M - 2) / 2) + (L - 1); memcpy(b + 1, iv, ivl); b[14] = n >> 8; b[15] = n & 255;
  memset(x, 0, 16); cm(x, b);
  if (al) {
    if (al < 0xff00) { buf[0] = al >> 8; buf[1] = al & 255; h = 2; } else { buf[0] = 0xff; buf[1] = 0xfe; buf[2] = al >> 24; buf[3] = al >> 16; buf[4] = al >> 8; buf[5] = al; h = 6; }
    memcpy(buf + h, ad, al); k = h + al; while (k % 16) buf[k++] = 0;
    for (i = 0; i < k; i += 16) cm(x, buf + i);
  }
  for (i = 0; i < n; i += 16) { memset(b, 0, 16); memcpy(b, m + i, n - i < 16 ? n - i : 16); cm(x, b); }
  memset(a, 0, 16); a[0] = L - 1; memcpy(a + 1, iv, ivl);
  E(&K1, b, a); xr(tag, x, b, 16);
  for (i = 0, k = 1; i < n; i += 16, k++) { a[15] = k; E(&K1, b, a); xr(c + i, m + i, b, n - i < 16 ? n - i : 16); }
  return 1;
}
static void dbl(unsigned char *x) { unsigned c = x[0] >> 7; size_t i; for (i = 0; i + 1 < B; i++) x[i] = (unsigned char)(x[i] << 1 | x[i + 1] >> 7); x[B - 1] = (unsigned char)(x[B - 1] << 1); x[B - 1] ^= c ? (B == 16 ? 0x87 : 0x1b) : 0; }
static void omac(unsigned char *o, int t, const unsigned char *d, size_t n) {
  static unsigned char buf[MAXN + 48]; unsigned char x[16], l[16], z[16]; size_t k, i, tot;
  memset(buf, 0, sizeof buf); buf[B - 1] = t; memcpy(buf + B, d, n); tot = B + n;
  memset(z, 0, 16); E(&K1, l, z); dbl(l);
  if (tot % B) { buf[tot] = 0x80; tot += B - tot % B; dbl(l); }
  k = tot / B; memset(x, 0, 16);
  for (i = 0; i < k; i++) { xr(x, x, buf + i * B, B); if (i == k - 1) xr(x, x, l, B); E(&K1, z, x); memcpy(x, z, B); }
  memcpy(o, x, B);
}
static int ref_eax(unsigned char *c, unsigned char *tag, const unsigned char *m, size_t n, const unsigned char *iv, size_t ivl, const unsigned char *ad, size_t al) {
  unsigned char nn[16], j[16], hh[16], cc[16], t[16]; size_t i;
  if (!ivl) return 0;
  omac(nn, 0, iv, ivl); omac(hh, 1, ad, al); memcpy(j, nn, B);
  for (i = 0; i < n; i += B) { E(&K1, t, j); xr(c + i, m + i, t, n - i < B ? n - i : B); inc(j, B); }
  omac(cc, 2, c, n); xr(tag, nn, hh, B); xr(tag, tag, cc, B);
  return 1;
}
static size_t choose(const char *nm, const int *t, int n) { return t[sym_pick(0, n - 1, nm)]; }

void h_aead(void) {
  static unsigned char key[32], iv[40], m[MAXN], ad[65600], c1[MAXN], ex[MAXN], tag[16], et[16], bad[16]; static cipher_stream_t s;
  static const int TN[] = {0, 1, 15, 16, 17, 33}, TA[] = {0, 1, 14, 16, 17}, TP[] = {0, 1, 16, 17}, TI[] = {12, 13, 7, 16, 1, 0, 17}, TM[] = {4, 10, 16};
  int mode = (int)sym_param("mode", CIPHER_MODE_GCM), r, want, big = (int)sym_param("big", 0), plan = (int)sym_param("plan", 0); size_t n, al, p, q, ivl, w, M = 16, i, tl;
  setup();
  /* plan 0: split data; plan 1: header lengths; plan 2: nonce lengths */
  if (plan == 0) { n = choose("n", TN, 6); p = choose("p", TP, 4); q = choose("q", TP, 2); sym_assume(p + q <= n); al = p % 16 ? 14 : 0; ivl = 12; }
  else { n = choose("n", TN, 2) * 5; p = q = 0; al = plan == 1 ? choose("al", TA, 5) : 3; ivl = plan == 2 ? choose("ivl", TI, 7) : 12; if (mode == CIPHER_MODE_CCM) M = choose("M", TM, 3); }
  if (big) { al = big; ivl = 13; }
  sym_bytes(key, KL, "key"); sym_bytes(iv, ivl, "iv"); sym_bytes(m, n, "m"); sym_bytes(ad, al > 64 ? 64 : al, "ad");
  if (al > 64) sym_bytes(ad + al - 2, 2, "ad");
  cipher_init(&K1, type, key, KL);
  want = mode == CIPHER_MODE_GCM ? ref_gcm(ex, et, m, n, iv, ivl, ad, al) : mode == CIPHER_MODE_CCM ? ref_ccm(ex, et, m, n, iv, ivl, ad, al, M) : ref_eax(ex, et, m, n, iv, ivl, ad, al);
  tl = mode == CIPHER_MODE_CCM ? M : B;
  r = cipher_stream_init(&s, type, mode, 1, key, KL, iv, ivl);
  sym_assert(r == want, "nonce length accepted"); if (!r) return;
  if (mode == CIPHER_MODE_CCM) sym_assert(cipher_stream_set_ccm(&s, n, M, ad, al) == 1, "ccm parameters");
  else { size_t k = al > 3 ? 3 : 0; sym_assert(cipher_stream_set_aad(&s, ad, k) == 1 && cipher_stream_set_aad(&s, ad + k, al - k) == 1, "header accepted"); }
  w = run(&s, c1, m, n, p, q);
  sym_assert(w == n, "length"); sym_assert_eq(c1, ex, n, "ciphertext");
  sym_assert(cipher_stream_get_tag(&s, tag, &w) == 1 && w == tl, "tag length");
  sym_assert_eq(tag, et, tl, "tag");
  /* verification with an arbitrary tag */
  sym_bytes(bad, tl, "tag");
  sym_assert(cipher_stream_init(&s, type, mode, 0, key, KL, iv, ivl) == 1, "init");
  if (mode == CIPHER_MODE_CCM) sym_assert(cipher_stream_set_ccm(&s, n, M, ad, al) == 1, "ccm parameters");
  else cipher_stream_set_aad(&s, ad, al);
  sym_assert(cipher_stream_set_tag(&s, bad, tl) == 1, "tag accepted");
  cipher_stream_update(&s, c1, &w, c1, p); cipher_stream_update(&s, c1 + p, &w, c1 + p, n - p);
  sym_assert_eq(c1, m, n, "decryption restores the plaintext, in place");
  { unsigned char dummy[16]; int eq = 1;
    for (i = 0; i < tl; i++) eq &= bad[i] == et[i];
    sym_assert(cipher_stream_final(&s, dummy, &w) == eq, "accepted exactly with the right tag"); }
}
/* truncated tags, missing tags */
void h_aead_tag(void) {
  static unsigned char key[32], iv[16], m[20], c1[20], ex[20], et[16], bad[17], dummy[16]; static cipher_stream_t s;
  int mode = (int)sym_param("mode", CIPHER_MODE_GCM), r, ok, eq = 1; size_t n = 5, w, tl, i;
  setup();
  sym_bytes(key, KL, "key"); sym_bytes(iv, 12, "iv"); sym_bytes(m, n, "m"); sym_bytes(bad, 17, "bad"); tl = sym_pick(0, 17, "tl");
  cipher_init(&K1, type, key, KL);
  if (mode == CIPHER_MODE_GCM) ref_gcm(ex, et, m, n, iv, 12, m, 0); else if (mode == CIPHER_MODE_CCM) ref_ccm(ex, et, m, n, iv, 12, m, 0, 16); else ref_eax(ex, et, m, n, iv, 12, m, 0);
  cipher_stream_init(&s, type, mode, 0, key, KL, iv, 12);
  if (mode == CIPHER_MODE_CCM) {
    sym_assert(cipher_stream_set_tag(&s, bad, tl) == 0, "no tag before the parameters are set");
    ok = tl >= 4 && tl <= 16 && tl % 2 == 0;
    r = cipher_stream_set_ccm(&s, n, tl, m, 0); sym_assert(r == ok, "allowed tag lengths"); if (!r) return;
    ref_ccm(ex, et, m, n, iv, 12, m, 0, tl);
  }
  ok = mode == CIPHER_MODE_GCM ? tl == 4 || tl == 8 || (tl >= 12 && tl <= 16) : mode == CIPHER_MODE_CCM ? 1 : tl >= 1 && tl <= B;
  r = cipher_stream_set_tag(&s, bad, tl); sym_assert(r == ok, "allowed tag lengths");
  cipher_stream_update(&s, c1, &w, ex, n); sym_assert_eq(c1, m, n, "plaintext");
  for (i = 0; i < tl && i < 16; i++) eq &= bad[i] == et[i];
  sym_assert(cipher_stream_final(&s, dummy, &w) == (ok && eq), "accepted exactly with a matching allowed tag");
}
/* GCM keystream from an arbitrary counter block: only the last 32 bits count */
void h_gcm_counter(void) {
  static unsigned char key[32], iv[12], m[48], c[48], j[16], k[16]; static gcm_t g; size_t i, n = 45, p = sym_pick(0, 2, "p") * 17;
  setup(); sym_bytes(key, KL, "key"); sym_bytes(iv, 12, "iv"); sym_bytes(m, n, "m"); cipher_init(&K1, type, key, KL);
  gcm_init(&g, &K1, iv, 12); sym_bytes(j, 16, "ctr"); memcpy(g.ctr.iv, j, 16);
  gcm_encrypt(&g, &K1, c, m, p); gcm_encrypt(&g, &K1, c + p, m + p, n - p);
  for (i = 0; i < n; i++) {
    if (i % 16 == 0) { E(&K1, k, j); inc(j + 12, 4); }
    sym_assert(c[i] == (m[i] ^ k[i % 16]), "keystream");
  }
}
