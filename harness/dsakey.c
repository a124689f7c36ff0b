/* DSA key parsing and validity rules; modular powers are arbitrary. STUBS REQUIRED. */
#include <stdlib.h>
#include "dsa.c"
#include "sym.h"
static uint8_t ga, ya, xa; static mpz_srcptr Y, G; 
static int same(mpz_srcptr a, mpz_srcptr b) { return a->limbs == b->limbs; }
static void pw(mpz_ptr z, mpz_srcptr x, mpz_srcptr e, mpz_srcptr m) { if (same(x, Y)) mpz_set_ui(z, 1 + ya); else mpz_set_ui(z, 1 + ga); }
static void pws(mpz_ptr z, mpz_srcptr x, mpz_srcptr e, mpz_srcptr m) { if (xa) mpz_set_ui(z, 1); else mpz_set(z, Y); }
void h_rule(void) {
  uint8_t p[65], q[33], g[65], y[65], x[33]; size_t pl = sym_param("plen", 64), ql = sym_param("qlen", 20), i; int ok, sane, what = sym_param("what", 0);
  dsa_priv_t k; dsa_pub_t pub; dsa_group_t gr;
  OVERRIDE(mpz_powm, pw); OVERRIDE(mpz_powm_sec, pws);
  dsa_priv_init(&k);
  sym_bytes(p, pl, "p"); sym_bytes(q, ql, "q"); sym_bytes(g, pl, "g"); sym_bytes(y, pl, "y"); sym_bytes(x, ql, "x");
  ga = sym_u8("gpow") & 1; ya = sym_u8("ypow") & 1; xa = sym_u8("xpow") & 1;
  if (sym_param("high", 1)) { p[0] |= 0x80; q[0] |= 0x80; }
  g[0] |= 1; y[0] |= 1; x[0] |= 1; /* nonzero tops keep sizes fixed */
  mpz_import(k.p, p, pl, 1); mpz_import(k.q, q, ql, 1); mpz_import(k.g, g, pl, 1); mpz_import(k.y, y, pl, 1); mpz_import(k.x, x, ql, 1);
  Y = k.y; G = k.g;
  { /* g < p - 1 for odd p: g < p and g != p - 1 */
    unsigned lt = 0, eq = 1, ylt = 0, yeq = 1, xlt = 0, xeq = 1, big = 0, qbig = 0;
    for (i = 0; i < pl; i++) { uint8_t t = i == pl - 1 ? p[i] & 0xfe : p[i]; lt |= eq & (g[i] < t); eq &= g[i] == t; ylt |= yeq & (y[i] < t); yeq &= y[i] == t; }
    for (i = 0; i < ql; i++) { xlt |= xeq & (x[i] < q[i]); xeq &= x[i] == q[i]; }
    big = pl > 64 ? (p[0] != 0) | (p[1] >> 7) : p[0] >> 7;
    qbig = q[0] >> 7;
    sane = big & qbig & (p[pl - 1] & 1) & (q[ql - 1] & 1) & lt;
    ok = sane & (ga == 0);
    if (what == 0) { dsa_group_roset_priv(&gr, &k); sym_assert(dsa_group_verify(&gr) == ok, "group rules"); return; }
    ok &= ylt & (ya == 0);
    if (what == 1) { dsa_pub_roset_priv(&pub, &k); sym_assert(dsa_pub_verify(&pub) == ok, "public key rules"); return; }
    ok &= xlt & (xa == 0);
    sym_assert(dsa_priv_verify(&k) == ok, "private key rules");
  }
}
/* small keys with any two neighbouring bytes */
void h_any(void) {
  static const uint8_t gb[11] = {0x30,9,2,1,9,2,1,7,2,1,5}, pb[14] = {0x30,12,2,1,9,2,1,7,2,1,5,2,1,4}, sb[20] = {0x30,18,2,1,0,2,1,9,2,1,7,2,1,5,2,1,4,2,1,3}, rs[8] = {0x30,6,2,1,9,2,1,7};
  int what = sym_param("what", 0), r; const uint8_t *base = what == 0 ? gb : what == 1 ? pb : what == 2 ? sb : rs; size_t n = what == 0 ? 11 : what == 1 ? 14 : what == 2 ? 20 : 8, ol = 0;
  unsigned p = sym_pick(0, n - 2, "position"); uint8_t in[24], out[64];
  dsa_group_t g; dsa_pub_t k; dsa_priv_t s; dsa_sig_t q;
  dsa_group_init(&g); dsa_pub_init(&k); dsa_priv_init(&s); dsa_sig_init(&q);
  memcpy(in, base, n);
  sym_bytes(in + p, 2, "bytes");
  r = what == 0 ? dsa_group_import(&g, in, n) : what == 1 ? dsa_pub_import(&k, in, n) : what == 2 ? dsa_priv_import(&s, in, n) : dsa_sig_import_der(&q, in, n);
  if (!r) { sym_assert((in[p] != base[p]) | (in[p + 1] != base[p + 1]), "genuine encoding imports"); return; }
  if (what == 0) dsa_group_export(out, &ol, &g); else if (what == 1) dsa_pub_export(out, &ol, &k); else if (what == 2) dsa_priv_export(out, &ol, &s); else dsa_sig_export_der(out, &ol, &q);
  ol = sym_concretize(ol);
  sym_assert(ol == n, "re-exported size");
  sym_assert_eq(out, in, n, "re-exported bytes");
}
