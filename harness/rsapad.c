/* RSA paddings: the modular exponentiation is replaced by the identity on
   the encoded message, hashing by an arbitrary function. Decoders must accept
   exactly the well-formed encodings; encoders must produce them. STUBS REQUIRED. */
#include <stdlib.h>
#include <torsion/mpi.h>
#include <torsion/rsa.h>
#include <torsion/drbg.h>
#include "hstub.h"
#define KMAX 80
static uint8_t key[KMAX + 16], nb[KMAX], seen[KMAX];
static size_t klen, keylen, seenlen;
static unsigned bits;
/* modulus 2^(bits-1) + 1 */
static void mkkey(void) {
  uint8_t *p = key;
  size_t hi;
  bits = sym_param("bits", 512);
  klen = (bits + 7) / 8;
  nb[0] = 1 << (bits - 1) % 8; nb[klen - 1] |= 1;
  hi = nb[0] >> 7;
  *p++ = 0x30; *p++ = 2 + klen + hi + 3; *p++ = 2; *p++ = klen + hi; if (hi) *p++ = 0;
  memcpy(p, nb, klen); p += klen; *p++ = 2; *p++ = 1; *p++ = 3;
  keylen = p - key;
}
static void put(uint8_t *out, const uint8_t *m, size_t n) { memmove(out + klen - n, m, n); memset(out, 0, klen - n); memcpy(seen, out, klen); seenlen = n; }
static int pub_op(const void *k, uint8_t *out, const uint8_t *m, size_t n) { put(out, m, n); return 1; }
static int priv_op(const void *k, uint8_t *out, const uint8_t *m, size_t n, int crt, const uint8_t *ent) { put(out, m, n); return 1; }
static int priv_imp(mpz_ptr k, const uint8_t *d, size_t n) { mpz_import(k, nb, klen, 1); return 1; }
static int yes(const void *k) { return 1; }
static uint8_t pool[128];
static size_t used;
static void rng_init(void *d, int t, const uint8_t *s, size_t n) {}
static void rng_gen(void *d, void *out, size_t n, const uint8_t *add, size_t an) { if (n) memcpy(out, pool + used, n); used += n; }
static void start(void) {
  mkkey();
  abstract_hash();
  OVERRIDE(rsa_pub_encrypt, pub_op); OVERRIDE(rsa_priv_decrypt, priv_op);
  OVERRIDE(rsa_priv_import, priv_imp); OVERRIDE(rsa_priv_verify, yes);
  OVERRIDE(hmac_drbg_init, rng_init); OVERRIDE(hmac_drbg_generate, rng_gen);
}
static int info(uint8_t *o, int type) {
  static const uint8_t s1[] = {0x30,0x21,0x30,0x09,0x06,0x05,0x2b,0x0e,0x03,0x02,0x1a,0x05,0x00,0x04,0x14};
  static const uint8_t s2[] = {0x30,0x31,0x30,0x0d,0x06,0x09,0x60,0x86,0x48,0x01,0x65,0x03,0x04,0x02,0x01,0x05,0x00,0x04,0x20};
  static const uint8_t m5[] = {0x30,0x20,0x30,0x0c,0x06,0x08,0x2a,0x86,0x48,0x86,0xf7,0x0d,0x02,0x05,0x05,0x00,0x04,0x10};
  const uint8_t *p = type == HASH_SHA1 ? s1 : type == HASH_SHA256 ? s2 : m5;
  int n = type == HASH_NONE ? 0 : type == HASH_SHA1 ? sizeof s1 : type == HASH_SHA256 ? sizeof s2 : sizeof m5;
  memcpy(o, p, n);
  return n;
}
static int tid(void) { static const int t[4] = { HASH_NONE, HASH_MD5, HASH_SHA1, HASH_SHA256 }; return t[sym_param("hash", 3)]; }
static size_t v15(uint8_t *e, int type, const uint8_t *m, size_t n) {
  uint8_t pre[32]; size_t pn = info(pre, type);
  memset(e, 0xff, klen); e[0] = 0; e[1] = 1; e[klen - n - pn - 1] = 0;
  memcpy(e + klen - n - pn, pre, pn); memcpy(e + klen - n, m, n);
  return klen;
}
/* PKCS#1 v1.5 signatures */
void h_v15(void) {
  int type, r; uint8_t em[KMAX], want[KMAX], m[64], sig[KMAX], ent[32] = {0}; size_t n, sl = 0, i; unsigned bad = 0;
  start();
  type = tid();
  n = type == HASH_NONE ? sym_param("len", 20) : hash_output_size(type);
  sym_bytes(m, n, "digest");
  v15(want, type, m, n);
  sym_assert(rsa_sign(sig, &sl, type, m, n, key, keylen, ent) == 1 && sl == klen, "signs");
  sym_assert_eq(seen, want, klen, "encoded message");
  sym_assert(rsa_verify(type, m, n, want, klen, key, keylen) == 1, "genuine signature verifies");
  sym_bytes(em, klen, "encoded");
  r = rsa_verify(type, m, n, em, klen, key, keylen);
  for (i = 0; i < klen; i++) bad |= em[i] ^ want[i];
  sym_assert((r == 1) == (bad == 0), "accepts exactly the encoding");
  sym_assert(rsa_verify(type, m, n, want, klen - 1, key, keylen) == 0, "short signature rejected");
  if (n) sym_assert(type == HASH_NONE || rsa_verify(type, m, n - 1, want, klen, key, keylen) == 0, "short digest rejected");
}
/* PKCS#1 v1.5 encryption */
void h_v15enc(void) {
  size_t n, ol = 0, i; uint8_t m[KMAX], out[KMAX], dec[KMAX], ent[32] = {0}; int r;
  start();
  n = sym_pick(sym_param("min", 0), sym_param("max", 3), "len");
  sym_bytes(m, n, "msg"); sym_bytes(pool, sizeof pool, "random");
  for (i = 0; i < sizeof pool; i++) pool[i] |= 1;
  r = rsa_encrypt(out, &ol, m, n, key, keylen, ent);
  sym_assert(r == (n <= klen - 11), "message length limit");
  if (!r) return;
  sym_assert(seen[0] == 0 && seen[1] == 2 && seen[klen - n - 1] == 0, "frame");
  sym_assert_eq(seen + 2, pool, klen - n - 3, "random padding");
  sym_assert_eq(seen + klen - n, m, n, "message");
  r = rsa_decrypt(dec, &ol, seen, klen, key, keylen, ent);
  sym_assert(r == 1 && ol == n, "decrypts");
  sym_assert_eq(dec, m, n, "round trip");
}
void h_v15dec(void) {
  size_t ol = 0, i, off = 0, lo; uint8_t em[KMAX], dec[KMAX], ent[32] = {0}; int r, ok, found = 0;
  start();
  memset(em, 0x55, klen);
  lo = sym_param("from", 0);
  sym_bytes(em + lo, sym_param("count", 16), "encoded");
  if (lo) { em[0] = 0; em[1] = 2; }
  for (i = 2; i < klen; i++) { int z = em[i] == 0; off = (z & !found) ? i : off; found |= z; }
  ok = (em[0] == 0) & (em[1] == 2) & found & (off >= 10);
  r = rsa_decrypt(dec, &ol, em, klen, key, keylen, ent);
  sym_assert((r == 1) == (ok == 1), "accepts exactly well-formed padding");
  if (!r) return;
  ol = sym_concretize(ol);
  sym_assert(ol == klen - off - 1, "length");
  sym_assert_eq(dec, em + klen - ol, ol, "message");
}
static void mgf(int type, uint8_t *out, size_t n, const uint8_t *seed, size_t sl) {
  uint8_t t[KMAX + 4], d[64]; size_t h = hash_output_size(type), i;
  memcpy(t, seed, sl); memset(t + sl, 0, 4);
  for (i = 0; i < n; i++) { if (i % h == 0) { t[sl + 3] = i / h; H_(type, d, t, sl + 4); } out[i] ^= d[i % h]; }
}
/* PSS with a stated salt length */
void h_pss(void) {
  int type, r, ok; size_t hl, sl, el, dl, i, ol = 0; uint8_t m[64], salt[64], want[KMAX], em[KMAX], db[KMAX], t[160], h[64], sig[KMAX], ent[32] = {0}; unsigned bad = 0, mask;
  start();
  type = tid(); hl = hash_output_size(type); sl = sym_param("salt", 4);
  el = (bits - 1 + 7) / 8; dl = el - hl - 1; mask = 0xff >> (8 * el - (bits - 1));
  sym_bytes(m, hl, "digest"); sym_bytes(pool, sl, "salt");
  memcpy(salt, pool, sl);
  r = rsa_sign_pss(sig, &ol, type, m, hl, key, keylen, sl, ent);
  sym_assert(r == (el >= hl + sl + 2), "salt length limit");
  if (!r) return;
  sym_assert(ol == klen && seenlen == el, "size");
  memset(t, 0, 8); memcpy(t + 8, m, hl); memcpy(t + 8 + hl, salt, sl);
  H_(type, h, t, 8 + hl + sl);
  memset(want, 0, klen);
  { uint8_t *w = want + klen - el; w[dl - sl - 1] = 1; memcpy(w + dl - sl, salt, sl); mgf(type, w, dl, h, hl); w[0] &= mask; memcpy(w + dl, h, hl); w[el - 1] = 0xbc; }
  sym_assert_eq(seen, want, klen, "encoded message");
  sym_assert(rsa_verify_pss(type, m, hl, want, klen, key, keylen, sl) == 1, "genuine signature verifies");
  sym_assert(rsa_verify_pss(type, m, hl, want, klen, key, keylen, 0) == 1, "genuine signature verifies with any salt length");
}
void h_pssany(void) {
  int type, r; size_t hl, sl, el, dl, i; uint8_t m[64], em[KMAX], db[KMAX], t[160], h[64]; unsigned bad = 0, mask; uint8_t *w;
  start();
  type = tid(); hl = hash_output_size(type); sl = sym_param("salt", 4);
  el = (bits - 1 + 7) / 8; dl = el - hl - 1; mask = 0xff >> (8 * el - (bits - 1));
  sym_bytes(m, hl, "digest"); sym_bytes(em, klen, "encoded");
  r = rsa_verify_pss(type, m, hl, em, klen, key, keylen, sl);
  w = em + klen - el;
  if (klen != el) bad |= em[0];
  bad |= w[el - 1] ^ 0xbc;
  bad |= w[0] & ~mask;
  memcpy(db, w, dl); mgf(type, db, dl, w + dl, hl); db[0] &= mask;
  for (i = 0; i < dl - sl - 1; i++) bad |= db[i];
  bad |= db[dl - sl - 1] ^ 1;
  memset(t, 0, 8); memcpy(t + 8, m, hl); memcpy(t + 8 + hl, db + dl - sl, sl);
  H_(type, h, t, 8 + hl + sl);
  for (i = 0; i < hl; i++) bad |= h[i] ^ w[dl + i];
  sym_assert((r == 1) == (bad == 0), "accepts exactly well-formed encodings");
}
/* OAEP */
void h_oaep(void) {
  int type, r; size_t hl, n, ol = 0, dl; uint8_t m[KMAX], lab[4], lh[64], want[KMAX], out[KMAX], dec[KMAX], ent[32] = {0};
  start();
  type = tid(); hl = hash_output_size(type); dl = klen - hl - 1;
  n = sym_pick(sym_param("min", 0), sym_param("max", 2), "len");
  sym_bytes(m, n, "msg"); sym_bytes(lab, 4, "label"); sym_bytes(pool, hl, "seed");
  r = rsa_encrypt_oaep(out, &ol, type, m, n, key, keylen, lab, 4, ent);
  sym_assert(r == (klen >= 2 * hl + 2 && n <= klen - 2 * hl - 2), "message length limit");
  if (!r) return;
  memset(want, 0, klen); memcpy(want + 1, pool, hl);
  H_(type, lh, lab, 4); memcpy(want + 1 + hl, lh, hl); want[klen - n - 1] = 1; memcpy(want + klen - n, m, n);
  mgf(type, want + 1 + hl, dl, want + 1, hl); mgf(type, want + 1, hl, want + 1 + hl, dl);
  sym_assert_eq(seen, want, klen, "encoded message");
  r = rsa_decrypt_oaep(dec, &ol, type, want, klen, key, keylen, lab, 4, ent);
  sym_assert(r == 1 && ol == n, "decrypts");
  sym_assert_eq(dec, m, n, "round trip");
}
/* any data block under the masks */
void h_oaepany(void) {
  int type, r, ok, found = 0, bad = 0; size_t hl, ol = 0, dl, i, off = 0; uint8_t lab[4], lh[64], em[KMAX], db[KMAX], dec[KMAX], ent[32] = {0};
  start();
  type = tid(); hl = hash_output_size(type); dl = klen - hl - 1;
  sym_bytes(lab, 4, "label"); sym_bytes(db, dl, "data block"); sym_bytes(em, 1 + hl, "seed");
  H_(type, lh, lab, 4);
  for (i = 0; i < hl; i++) bad |= db[i] ^ lh[i];
  for (i = hl; i < dl; i++) { int one = db[i] == 1, z = db[i] == 0; off = (one & !found) ? i : off; bad |= !found & !one & !z; found |= one; }
  ok = (em[0] == 0) & (bad == 0) & found;
  memcpy(em + 1 + hl, db, dl);
  mgf(type, em + 1 + hl, dl, em + 1, hl); mgf(type, em + 1, hl, em + 1 + hl, dl);
  r = rsa_decrypt_oaep(dec, &ol, type, em, klen, key, keylen, lab, 4, ent);
  sym_assert((r == 1) == (ok == 1), "accepts exactly well-formed encodings");
  if (!r) return;
  ol = sym_concretize(ol);
  sym_assert(ol == dl - off - 1, "length");
  sym_assert_eq(dec, db + dl - ol, ol, "message");
}
