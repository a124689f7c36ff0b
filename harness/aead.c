/* ChaCha20-Poly1305 and secretbox over abstract key streams and an abstract
   one-time authenticator (real ones natively; C05 and M01 cover those). */
#include <string.h>
#include <torsion/aead.h>
#include <torsion/ies.h>
#include <torsion/mac.h>
#include <torsion/stream.h>
#include "sym.h"

typedef struct { unsigned char in[72]; size_t n, pos; unsigned char ks[64]; } skey;
static void s_init(skey *s, const unsigned char *k, size_t kl, const unsigned char *iv, size_t ivl, uint64_t ctr, int t) {
  memset(s->in, 0, 72); memcpy(s->in, k, kl); memcpy(s->in + 32, iv, ivl); s->in[60] = kl; s->in[61] = ivl; s->in[62] = t; memcpy(s->in + 64, &ctr, 8); s->pos = 64;
}
static void s_crypt(skey *s, unsigned char *d, const unsigned char *src, size_t n) {
  size_t i; uint64_t c;
  for (i = 0; i < n; i++) {
    if (s->pos == 64) { size_t j; for (j = 0; j < 64; j += 16) { s->in[63] = j; sym_uf(s->ks + j, 16, s->in, 72, "ks"); } memcpy(&c, s->in + 64, 8); c++; memcpy(s->in + 64, &c, 8); s->pos = 0; }
    d[i] = src[i] ^ s->ks[s->pos++];
  }
}
typedef char fits1[sizeof(skey) <= 2 * sizeof(chacha20_t) ? 1 : -1];
static skey SK[8]; static int nsk;
static void cinit(chacha20_t *c, const unsigned char *k, size_t kl, const unsigned char *iv, size_t ivl, uint64_t ctr) { int id = nsk++; s_init(&SK[id], k, kl, iv, ivl, ctr, 1); memcpy(c, &id, sizeof id); }
static void ccrypt(chacha20_t *c, unsigned char *d, const unsigned char *s, size_t n) { int id; memcpy(&id, c, sizeof id); s_crypt(&SK[id], d, s, n); }
static void sinit(salsa20_t *c, const unsigned char *k, size_t kl, const unsigned char *iv, size_t ivl, uint64_t ctr) { int id = nsk++; s_init(&SK[id], k, kl, iv, ivl, ctr, 2); memcpy(c, &id, sizeof id); }
static void scrypt_(salsa20_t *c, unsigned char *d, const unsigned char *s, size_t n) { int id; memcpy(&id, c, sizeof id); s_crypt(&SK[id], d, s, n); }

typedef struct { unsigned char b[64]; unsigned pos; } pst;       /* b = h16 key32 block16 */
typedef char fits2[sizeof(pst) <= sizeof(poly1305_t) ? 1 : -1];
static void pblk(pst *p, int last) { unsigned char t[65]; memcpy(t, p->b, 64); t[64] = last ? p->pos : 16; sym_uf(p->b, 16, t, 65, "poly"); p->pos = 0; }
static void pinit(poly1305_t *c, const unsigned char *k) { pst *p = (pst *)c; memset(p, 0, sizeof *p); memcpy(p->b + 16, k, 32); }
static void pupd(poly1305_t *c, const unsigned char *d, size_t n) { pst *p = (pst *)c; while (n--) { p->b[48 + p->pos++] = *d++; if (p->pos == 16) pblk(p, 0); } }
static void ppad(poly1305_t *c) { pst *p = (pst *)c; if (p->pos) { memset(p->b + 48 + p->pos, 0, 16 - p->pos); pblk(p, 0); } }
static void pfin(poly1305_t *c, unsigned char *o) { pst *p = (pst *)c; if (p->pos) { memset(p->b + 48 + p->pos, 0, 16 - p->pos); pblk(p, 1); } memset(p->b + 48, 255, 16); p->pos = 17; pblk(p, 1); memcpy(o, p->b, 16); }
static void abstract(void) {
  OVERRIDE(chacha20_init, cinit); OVERRIDE(chacha20_crypt, ccrypt); OVERRIDE(salsa20_init, sinit); OVERRIDE(salsa20_crypt, scrypt_);
  OVERRIDE(poly1305_init, pinit); OVERRIDE(poly1305_update, pupd); OVERRIDE(poly1305_pad, ppad); OVERRIDE(poly1305_final, pfin);
}
static size_t choose(const char *n, const int *t, int k) { return (size_t)t[sym_pick(0, k - 1, n)]; }
static void le64(unsigned char *p, uint64_t v) { int i; for (i = 0; i < 8; i++) p[i] = (unsigned char)(v >> (8 * i)); }
static void ref_cp(unsigned char *ct, unsigned char *tag, const unsigned char *k, const unsigned char *iv, size_t ivl, const unsigned char *ad, size_t al, const unsigned char *m, size_t n) {
  static unsigned char z[256], o[256], mac[256]; size_t i, q = 0; chacha20_t c; poly1305_t p;
  memset(z, 0, sizeof z); memcpy(z + 64, m, n);
  chacha20_init(&c, k, 32, iv, ivl, 0); chacha20_crypt(&c, o, z, 64 + n);
  memcpy(ct, o + 64, n);
  for (i = 0; i < al; i++) mac[q++] = ad[i];
  while (q % 16) mac[q++] = 0;
  for (i = 0; i < n; i++) mac[q++] = ct[i];
  while (q % 16) mac[q++] = 0;
  le64(mac + q, al); le64(mac + q + 8, n); q += 16;
  poly1305_init(&p, o); poly1305_update(&p, mac, q); poly1305_final(&p, tag);
}
void h_chachapoly(void) {
  static unsigned char key[32], iv[24], ad[48], m[100], ct[100], et[16], o[100], tag[16]; static chachapoly_t a;
  static const int TN[] = {0, 1, 16, 17, 64, 65}, TA[] = {0, 1, 15, 16, 17}, TP[] = {0, 1, 15, 16}, TI[] = {8, 12, 24}; size_t n, al, p, q, ivl, k;
  abstract();
  n = choose("n", TN, 6); al = choose("al", TA, 5); p = choose("p", TP, 4); q = choose("q", TP, 2); ivl = choose("iv", TI, 3); sym_assume(p + q <= n);
  sym_bytes(key, 32, "key"); sym_bytes(iv, ivl, "iv"); sym_bytes(ad, al, "ad"); sym_bytes(m, n, "m");
  ref_cp(ct, et, key, iv, ivl, ad, al, m, n);
  k = al > 2 ? 2 : 0;
  chachapoly_init(&a, key, iv, ivl); chachapoly_aad(&a, ad, k); chachapoly_aad(&a, ad + k, al - k);
  chachapoly_encrypt(&a, o, m, p); chachapoly_encrypt(&a, o + p, m + p, q); chachapoly_encrypt(&a, o + p + q, m + p + q, n - p - q);
  chachapoly_final(&a, tag);
  sym_assert_eq(o, ct, n, "ciphertext"); sym_assert_eq(tag, et, 16, "tag");
  chachapoly_init(&a, key, iv, ivl); chachapoly_aad(&a, ad, al);
  chachapoly_decrypt(&a, o, o, p); chachapoly_decrypt(&a, o + p, o + p, q); chachapoly_decrypt(&a, o + p + q, o + p + q, n - p - q);
  chachapoly_final(&a, tag);
  sym_assert_eq(o, m, n, "decryption in place"); sym_assert_eq(tag, et, 16, "tag when decrypting");
  chachapoly_init(&a, key, iv, ivl); chachapoly_aad(&a, ad, al);
  chachapoly_auth(&a, ct, p); chachapoly_auth(&a, ct + p, n - p); chachapoly_final(&a, tag);
  sym_assert_eq(tag, et, 16, "tag without decrypting");
}
void h_secretbox(void) {
  static unsigned char key[32], iv[24], m[100], s[120], o[100], z[140], ks[140], ex[120], tag[16]; static const int TN[] = {0, 1, 31, 32, 33, 64, 97};
  salsa20_t c; poly1305_t p; size_t n, i, sh; int eq = 1, r;
  abstract();
  n = choose("n", TN, 7);
  sym_bytes(key, 32, "key"); sym_bytes(iv, 24, "iv"); sym_bytes(m, n, "m"); sym_bytes(tag, 16, "tag");
  memcpy(z + 32, m, n);
  salsa20_init(&c, key, 32, iv, 24, 0); salsa20_crypt(&c, ks, z, 32 + n);
  memcpy(ex + 16, ks + 32, n);
  poly1305_init(&p, ks); poly1305_update(&p, ks + 32, n); poly1305_final(&p, ex);
  s[16 + n] = 0x77;
  secretbox_seal(s, m, n, key, iv);
  sym_assert_eq(s, ex, n + 16, "sealed box"); sym_assert(s[16 + n] == 0x77, "no write past the box");
  memset(o, 0x55, sizeof o);
  sym_assert(secretbox_open(o, s, n + 16, key, iv) == 1, "genuine box opens"); sym_assert_eq(o, m, n, "message"); sym_assert(o[n] == 0x55, "no write past the message");
  for (i = 0; i < 16; i++) eq &= tag[i] == ex[i];
  memcpy(s, tag, 16);
  r = secretbox_open(o, s, n + 16, key, iv); sym_assert(r == eq, "opens exactly with the right tag");
  sh = sym_pick(0, 15, "short");
  sym_assert(secretbox_open(o, s, sh, key, iv) == 0, "short boxes are refused");
}
