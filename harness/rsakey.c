/* RSA key parsing and validity rules. */
#include <stdlib.h>
#include "rsa.c"
#include "sym.h"
static const uint8_t rsakey[320] = {48,130,1,60,2,1,0,2,65,0,185,49,237,114,71,164,215,174,121,142,233,226,16,166,238,253,237,114,248,104,60,39,63,200,162,202,18,7,117,238,126,7,136,68,105,187,132,124,108,241,49,241,165,163,181,36,93,136,18,100,6,127,113,252,78,50,247,15,223,66,169,84,179,185,2,3,1,0,1,2,64,4,10,167,38,48,146,148,35,106,99,56,78,246,242,145,178,40,121,179,26,161,63,113,8,169,166,211,204,102,98,57,77,90,198,127,130,142,127,17,50,237,89,247,209,243,186,114,20,172,53,178,131,129,94,244,240,89,89,28,5,3,28,195,129,2,33,0,220,211,171,203,140,179,1,205,215,47,240,195,131,173,195,183,196,23,54,79,122,98,206,5,196,173,3,45,204,13,148,65,2,33,0,214,177,89,211,221,138,234,136,247,134,144,130,169,149,107,214,64,1,15,131,113,24,123,177,27,9,19,71,46,125,97,121,2,33,0,219,203,183,208,39,96,57,40,119,202,24,219,145,226,79,207,70,87,80,80,117,97,136,236,198,224,234,44,24,81,95,193,2,33,0,128,239,172,17,248,104,88,104,127,183,154,12,78,202,133,35,251,246,103,25,186,143,72,161,217,169,190,161,46,67,112,137,2,33,0,209,53,125,220,73,79,51,41,69,89,63,106,244,88,141,41,106,40,193,220,18,23,4,34,180,225,198,219,186,96,213,187};
/* any short input: what imports re-exports to the same bytes */
void h_pubany(void) {
  size_t n = sym_pick(sym_param("min", 0), sym_param("max", 9), "len"), ol = 0;
  uint8_t *in = malloc(n ? n : 1), out[64];
  rsa_pub_t k;
  rsa_pub_init(&k);
  sym_bytes(in, n, "key");
  if (!rsa_pub_import(&k, in, n)) return;
  rsa_pub_export(out, &ol, &k);
  ol = sym_concretize(ol);
  sym_assert(ol == n, "re-exported size");
  sym_assert_eq(out, in, n, "re-exported bytes");
}
/* a private key of small numbers with any two neighbouring bytes */
void h_privany(void) {
  static const uint8_t base[29] = {0x30,0x1b,2,1,0,2,1,9,2,1,8,2,1,7,2,1,6,2,1,5,2,1,4,2,1,3,2,1,2};
  unsigned p = sym_pick(sym_param("lo", 0), sym_param("hi", 27), "position"), cnt = sym_param("count", 2);
  size_t n = 29, ol = 0;
  uint8_t in[29], out[128];
  rsa_priv_t k;
  rsa_priv_init(&k);
  memcpy(in, base, 29);
  sym_bytes(in + p, cnt, "bytes");
  if (!rsa_priv_import(&k, in, n)) { sym_assert((in[p] != base[p]) | (cnt > 1 && in[p + 1] != base[p + 1]), "genuine key imports"); return; }
  rsa_priv_export(out, &ol, &k);
  ol = sym_concretize(ol);
  sym_assert(ol == n, "re-exported size");
  sym_assert_eq(out, in, n, "re-exported bytes");
}
/* public key rules */
void h_pubrule(void) {
  uint8_t n[66], e[6], der[96], *p = der;
  size_t nl = sym_param("nlen", 64), el = sym_param("elen", 1), i, hi;
  int big, ok;
  rsa_pub_t k;
  uint64_t ev = 0;
  rsa_pub_init(&k);
  sym_bytes(n, nl, "modulus"); sym_bytes(e, el, "exponent");
  mpz_import(k.n, n, nl, 1); mpz_import(k.e, e, el, 1);
  for (i = 0; i < el; i++) ev = ev << 8 | e[i];
  big = nl > 64; if (nl == 64) big = n[0] >> 7; if (nl == 65) big = n[0] != 0 | n[1] >> 7;
  ok = big & (n[nl - 1] & 1) & (ev >= 3) & (ev & 1) & (ev < (1ull << 33));
  sym_assert(rsa_pub_verify(&k) == ok, "accepts exactly keys within the rules");
}
/* the same through the public interface, and every operation refuses a bad key */
void h_pubops(void) {
  uint8_t n[64], der[96], *p = der, out[256], ent[32] = {0}, m[64];
  size_t ol = 0; int ok, r;
  unsigned e = sym_u8("exponent");
  memset(n, 0x9b, 64);
  n[0] = sym_u8("top"); n[63] = sym_u8("bottom");
  sym_assume((n[0] >= 0x80) & (e < 128) & (e > 0));
  ok = (n[63] & 1) & (e >= 3) & (e & 1);
  *p++ = 0x30; *p++ = 67 + 3; *p++ = 2; *p++ = 65; *p++ = 0; memcpy(p, n, 64); p += 64; *p++ = 2; *p++ = 1; *p++ = e;
  memset(m, 0, 64);
  sym_assert(rsa_pubkey_verify(der, p - der) == ok, "verification");
  sym_assert((rsa_pubkey_bits(der, p - der) == 512) == ok, "bits");
  if (ok) return;
  sym_assert(rsa_encrypt(out, &ol, m, 4, der, p - der, ent) == 0, "encryption refuses");
  sym_assert(rsa_verify(HASH_SHA256, m, 32, m, 64, der, p - der) == 0, "signature check refuses");
  sym_assert(rsa_verify_pss(HASH_SHA256, m, 32, m, 64, der, p - der, 4) == 0, "PSS check refuses");
  sym_assert(rsa_encrypt_oaep(out, &ol, HASH_MD5, m, 4, der, p - der, m, 0, ent) == 0, "OAEP encryption refuses");
}
/* a genuine private key with symbolic changes to one of its numbers */
void h_privrule(void) {
  rsa_priv_t k; mpz_ptr f[8]; unsigned w = sym_param("field", 0), at = sym_param("byte", 0); uint8_t d = sym_u8("change") & sym_param("mask", 255), b[96];
  size_t n;
  rsa_priv_init(&k);
  sym_assert(rsa_priv_import(&k, rsakey, sizeof rsakey) == 1, "imports");
  f[0] = k.n; f[1] = k.e; f[2] = k.d; f[3] = k.p; f[4] = k.q; f[5] = k.dp; f[6] = k.dq; f[7] = k.qi;
  n = mpz_bytelen(f[w]);
  if (at >= n) at = n - 1;
  mpz_export(b, f[w], n, -1);
  b[at] ^= d;
  mpz_import(f[w], b, n, -1);
  sym_assert(rsa_priv_verify(&k) == (d == 0), "accepts only the consistent key");
}
