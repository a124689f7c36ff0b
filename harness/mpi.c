/* Big integers through the public mpz interface, against fixed-width two's
   complement arithmetic. Sizes and signs are case-split; limb contents are
   fully symbolic (linear operations) or fixed patterns with symbolic bytes
   (multiplication, division). */
#include <stdlib.h>
#include <string.h>
#include "sym.h"
#include <torsion/mpi.h>

#define LB (sizeof(mp_limb_t))
#ifndef W
#define W 40 /* bytes of the reference width */
#endif
typedef struct { uint64_t w[W / 8]; } big;

static big b_of(uint64_t v) { big r; memset(&r, 0, sizeof r); r.w[0] = v; return r; }
static big b_add(big a, big b) {
  big r; unsigned __int128 c = 0; int i;
  for (i = 0; i < W / 8; i++) { c += (unsigned __int128)a.w[i] + b.w[i]; r.w[i] = (uint64_t)c; c >>= 64; }
  return r;
}
static big b_not(big a) { int i; for (i = 0; i < W / 8; i++) a.w[i] = ~a.w[i]; return a; }
static big b_neg(big a) { return b_add(b_not(a), b_of(1)); }
static big b_sub(big a, big b) {
  big r; unsigned __int128 c = 0; int i;
  for (i = 0; i < W / 8; i++) { c = (unsigned __int128)a.w[i] - b.w[i] - (c >> 127); r.w[i] = (uint64_t)c; }
  return r;
}
static big b_mul(big a, big b) {
  big r; int i, j;
  memset(&r, 0, sizeof r);
  for (i = 0; i < W / 8; i++) {
    unsigned __int128 c = 0;
    for (j = 0; i + j < W / 8; j++) { c += (unsigned __int128)a.w[i] * b.w[j] + r.w[i + j]; r.w[i + j] = (uint64_t)c; c >>= 64; }
  }
  return r;
}
static int b_sgn(big a) { int i; uint64_t o = 0; for (i = 0; i < W / 8; i++) o |= a.w[i]; return (a.w[W / 8 - 1] >> 63) ? -1 : o != 0; }
static big b_shl(big a, unsigned k) {
  big r; int i; unsigned q = k / 64, s = k % 64;
  for (i = W / 8 - 1; i >= 0; i--) {
    uint64_t hi = i >= (int)q ? a.w[i - q] : 0, lo = i > (int)q ? a.w[i - q - 1] : 0;
    r.w[i] = s ? hi << s | lo >> (64 - s) : hi;
  }
  return r;
}
static big b_sar(big a, unsigned k) { /* floor */
  big r; int i; unsigned q = k / 64, s = k % 64; uint64_t f = 0 - (a.w[W / 8 - 1] >> 63);
  for (i = 0; i < W / 8; i++) {
    uint64_t lo = i + q < W / 8 ? a.w[i + q] : f, hi = i + q + 1 < W / 8 ? a.w[i + q + 1] : f;
    r.w[i] = s ? lo >> s | hi << (64 - s) : lo;
  }
  return r;
}
static big b_get(mpz_srcptr x) { /* exact value, and the size is normalised */
  big r; mp_size_t n = x->size < 0 ? -x->size : x->size, i; uint8_t t[W];
  n = (mp_size_t)sym_concretize((uint64_t)n);
  memset(t, 0, sizeof t);
  sym_assert((size_t)n * LB < W, "size");
  for (i = 0; i < n; i++) memcpy(t + i * LB, &x->limbs[i], LB);
  memcpy(&r, t, W);
  if (n) sym_assert(x->limbs[n - 1] != 0, "normalised");
  return x->size < 0 ? b_neg(r) : r;
}
typedef struct { big m; int neg; } sgn; /* sign and magnitude */
static sgn s_get(mpz_srcptr x) { sgn r; r.m = b_get(x); r.neg = x->size < 0; if (r.neg) { mpz_t tt; mpz_ptr t = tt; *t = *x; t->size = -t->size; r.m = b_get(t); } return r; }
static big s_val(sgn a) { return a.neg ? b_neg(a.m) : a.m; }
static big s_mul(sgn a, sgn b) { big r = b_mul(a.m, b.m); return a.neg != b.neg ? b_neg(r) : r; }
static sgn s_of(uint64_t v, int neg) { sgn r; r.m = b_of(v); r.neg = neg; return r; }
static void eq(mpz_srcptr x, big want, const char *id) { big g = b_get(x); sym_assert_eq(&g, &want, W, id); }

/* n limbs, all symbolic, top limb nonzero; sign from the pick */
static void any(mpz_t x, const char *name, unsigned max) {
  unsigned n = sym_pick(sym_param("minlimbs", 0), max, "limbs"), i;
  int neg = n ? sym_pick(0, sym_param("signs", 1), "negative") : 0;
  mp_limb_t *p;
  mpz_init(x);
  p = mpz_limbs_write(x, max + 1);
  sym_bytes(p, n * LB, name);
  for (i = n; i <= max; i++) p[i] = 0x5a;
  if (n) sym_assume(p[n - 1] != 0);
  mpz_limbs_finish(x, neg ? -(mp_size_t)n : (mp_size_t)n);
}
/* fixed limb patterns with one symbolic byte */
static void pat(mpz_t x, const char *name, unsigned n, unsigned pats, unsigned k, unsigned mask) {
  static const uint64_t base[6] = { 0xffffffffffffffffull, 0x8000000000000000ull, 0, 0x0123456789abcdefull, 1, 0xfffffffffffffffeull };
  unsigned i;
  uint8_t s;
  int neg = sym_pick(0, sym_param("signs", 0), "negative");
  uint8_t v[W];
  mpz_init(x);
  memset(v, 0, sizeof v);
  for (i = 0; i < n; i++) { mp_limb_t l = (mp_limb_t)base[(pats >> 3 * i & 7) % 6]; if (((pats >> 3 * i) & 7) % 6 == 1) l = (mp_limb_t)1 << (8 * LB - 1); memcpy(v + i * LB, &l, LB); }
  sym_bytes(&s, 1, name);
  v[k] ^= s & mask;
  mpz_import(x, v, n * LB, -1);
  if (neg) mpz_neg(x, x);
}

/* linear operations, any operands */
void h_lin(void) {
  mpz_t x, y, z;
  int op = sym_param("op", 0), al = sym_param("alias", 0);
  unsigned max = sym_param("limbs", 2), k;
  mpz_ptr d;
  big a, b, one = b_of(1);
  mp_limb_t u = 0; long long si = 0;
  any(x, "x", max);
  any(y, "y", op < 20 ? max : 0);
  mpz_init(z);
  a = b_get(x); b = b_get(y);
  d = al == 1 ? x : al == 2 ? y : z;
  if ((op >= 20 && op < 30)) { sym_bytes(&u, LB, "word"); b = b_of(u); si = (mp_long_t)u; }
  if (op >= 25 && op < 30) b = si < 0 ? b_neg(b_of((mp_limb_t)(0 - u))) : b_of(u);
  switch (op) {
    case 0: mpz_add(d, x, y); eq(d, b_add(a, b), "sum"); break;
    case 1: mpz_sub(d, x, y); eq(d, b_sub(a, b), "difference"); break;
    case 2: { int c = b_sgn(b_sub(a, b)), r = mpz_cmp(x, y); sym_assert((r < 0) == (c < 0) && (r > 0) == (c > 0), "comparison");
      { big pa = x->size < 0 ? b_neg(a) : a, pb = y->size < 0 ? b_neg(b) : b; c = b_sgn(b_sub(pa, pb)); r = mpz_cmpabs(x, y); sym_assert((r < 0) == (c < 0) && (r > 0) == (c > 0), "magnitude comparison"); }
      sym_assert(mpz_sgn(x) == b_sgn(a), "sign"); break; }
    case 3: mpz_and(d, x, y); { big e = a; for (k = 0; k < W / 8; k++) e.w[k] &= b.w[k]; eq(d, e, "and"); } break;
    case 4: mpz_ior(d, x, y); { big e = a; for (k = 0; k < W / 8; k++) e.w[k] |= b.w[k]; eq(d, e, "or"); } break;
    case 5: mpz_xor(d, x, y); { big e = a; for (k = 0; k < W / 8; k++) e.w[k] ^= b.w[k]; eq(d, e, "xor"); } break;
    case 6: mpz_com(d, x); eq(d, b_not(a), "complement"); break;
    case 7: mpz_neg(d, x); eq(d, b_neg(a), "negation"); break;
    case 8: mpz_abs(d, x); eq(d, x->size < 0 && d != x ? b_neg(a) : b_sgn(a) < 0 ? b_neg(a) : a, "absolute value"); break;
    case 9: mpz_set(z, x); eq(z, a, "copy"); mpz_swap(z, y); eq(z, b, "swap"); eq(y, a, "swap"); break;
    case 20: mpz_add_ui(d, x, u); eq(d, b_add(a, b), "sum with word"); break;
    case 21: mpz_sub_ui(d, x, u); eq(d, b_sub(a, b), "difference with word"); break;
    case 22: mpz_ui_sub(d, u, x); eq(d, b_sub(b, a), "word minus integer"); break;
    case 23: { int c = b_sgn(b_sub(a, b)), r = mpz_cmp_ui(x, u); sym_assert((r < 0) == (c < 0) && (r > 0) == (c > 0), "comparison with word");
      sym_assert(mpz_and_ui(x, u) == (a.w[0] & u), "and with word"); mpz_set_ui(z, u); eq(z, b, "set to word"); break; }
    case 24: mpz_ior_ui(d, x, u); { big e = a; e.w[0] |= u; eq(d, e, "or with word"); } break;
    case 25: mpz_add_si(d, x, si); eq(d, b_add(a, b), "sum with signed word"); break;
    case 26: mpz_sub_si(d, x, si); eq(d, b_sub(a, b), "difference with signed word"); break;
    case 27: mpz_si_sub(d, si, x); eq(d, b_sub(b, a), "signed word minus integer"); break;
    case 28: { int c = b_sgn(b_sub(a, b)), r = mpz_cmp_si(x, si); sym_assert((r < 0) == (c < 0) && (r > 0) == (c > 0), "comparison with signed word"); mpz_set_si(z, si); eq(z, b, "set to signed word"); break; }
    case 29: mpz_xor_ui(d, x, u); { big e = a; e.w[0] ^= u; eq(d, e, "xor with word"); } break;
    case 30: { /* shifts by every amount up to just past two limbs */
      unsigned s = sym_param("shift", 1);
      mpz_mul_2exp(d, x, s); eq(d, b_shl(a, s), "left shift"); break; }
    case 31: { unsigned s = sym_param("shift", 1);
      mpz_quo_2exp(d, x, s); eq(d, b_sgn(a) < 0 ? b_neg(b_sar(b_neg(a), s)) : b_sar(a, s), "truncating right shift"); break; }
    case 32: { unsigned s = sym_param("shift", 1);
      mpz_div_2exp(d, x, s); eq(d, b_sar(a, s), "flooring right shift"); break; }
    case 33: { unsigned s = sym_param("shift", 1); big m = b_sub(b_shl(one, s), one);
      mpz_mod_2exp(d, x, s); for (k = 0; k < W / 8; k++) m.w[k] &= a.w[k]; eq(d, m, "residue modulo a power of two"); break; }
    case 34: { unsigned s = sym_param("shift", 1); big m = b_sub(b_shl(one, s), one), p = b_sgn(a) < 0 ? b_neg(a) : a;
      mpz_rem_2exp(d, x, s); for (k = 0; k < W / 8; k++) m.w[k] &= p.w[k]; eq(d, b_sgn(a) < 0 ? b_neg(m) : m, "remainder modulo a power of two"); break; }
    case 35: { unsigned s = sym_param("shift", 1); big e = a; int bit = (a.w[s / 64] >> s % 64) & 1;
      sym_assert(mpz_tstbit(x, s) == bit, "bit");
      mpz_set(z, x); mpz_setbit(z, s); e = a; e.w[s / 64] |= 1ull << s % 64; eq(z, e, "set bit");
      mpz_set(z, x); mpz_clrbit(z, s); e = a; e.w[s / 64] &= ~(1ull << s % 64); eq(z, e, "clear bit");
      mpz_set(z, x); mpz_combit(z, s); e = a; e.w[s / 64] ^= 1ull << s % 64; eq(z, e, "flip bit");
      break; }
    case 36: { big p = b_sgn(a) < 0 ? b_neg(a) : a; int l = 0, t = 0, i;
      for (i = 0; i < W * 8 - 1; i++) if ((p.w[i / 64] >> i % 64) & 1) l = i + 1;
      for (i = W * 8 - 1; i >= 0; i--) if ((p.w[i / 64] >> i % 64) & 1) t = i;
      sym_assert((int)mpz_bitlen(x) == l, "bit length");
      sym_assert((int)mpz_bytelen(x) == (l + 7) / 8, "byte length");
      sym_assert((int)mpz_ctz(x) == t, "trailing zeros");
      sym_assert(mpz_odd_p(x) == (int)(a.w[0] & 1) && mpz_even_p(x) == !(int)(a.w[0] & 1), "parity");
      sym_assert(mpz_get_ui(x) == (mp_limb_t)p.w[0], "low word");
      break; }
  }
  if (al != 1) eq(x, a, "operand kept");
  if (al != 2 && op < 20 && op != 9) eq(y, b, "operand kept");
}

/* products of patterns */
void h_mul(void) {
  mpz_t x, y, z;
  int op = sym_param("op", 0), al = sym_param("alias", 0);
  sgn a, b; big c;
  mp_limb_t u;
  mpz_ptr d;
  unsigned xn = sym_param("xn", 2), yn = sym_param("yn", 2);
  pat(x, "x byte", xn, sym_param("xp", 0), sym_param("xk", 0), sym_param("xm", 255));
  pat(y, "y byte", yn, sym_param("yp", 0), sym_param("yk", 0), sym_param("ym", 255));
  pat(z, "z byte", 2, 3, 1, 0x81);
  a = s_get(x); b = s_get(y); c = b_get(z); u = mpz_get_ui(y);
  d = al == 1 ? x : al == 2 ? y : z;
  switch (op) {
    case 0: mpz_mul(d, x, y); eq(d, s_mul(a, b), "product"); break;
    case 1: mpz_sqr(d, x); eq(d, s_mul(a, a), "square"); break;
    case 2: mpz_addmul(z, x, y); eq(z, b_add(c, s_mul(a, b)), "sum with product"); break;
    case 3: mpz_submul(z, x, y); eq(z, b_sub(c, s_mul(a, b)), "difference with product"); break;
    case 4: mpz_mul_ui(d, x, u); eq(d, s_mul(a, s_of(u, 0)), "product with word"); break;
    case 5: mpz_addmul_ui(z, x, u); eq(z, b_add(c, s_mul(a, s_of(u, 0))), "sum with word product"); break;
    case 6: mpz_submul_ui(z, x, u); eq(z, b_sub(c, s_mul(a, s_of(u, 0))), "difference with word product"); break;
    case 7: { int n = (mp_long_t)u < 0; mpz_mul_si(d, x, (mp_long_t)u); eq(d, s_mul(a, s_of(n ? (mp_limb_t)(0 - u) : u, n)), "product with signed word"); break; }
  }
}

/* fully symbolic products */
void h_mulfull(void) {
  mpz_t x, y, z;
  sgn a, b;
  any(x, "x", sym_param("xn", 1));
  any(y, "y", sym_param("yn", 1));
  mpz_init(z);
  a = s_get(x); b = s_get(y);
  if (sym_param("sqr", 0)) { mpz_sqr(z, x); eq(z, s_mul(a, a), "square"); }
  else { mpz_mul(z, x, y); eq(z, s_mul(a, b), "product"); }
}

static void check_div(sgn n, sgn d, sgn q, sgn r, int mode) {
  big t = b_add(s_mul(q, d), s_val(r)), w = s_val(n);
  sym_assert_eq(&t, &w, W, "quotient times divisor plus remainder");
  sym_assert(b_sgn(b_sub(r.m, d.m)) < 0, "remainder below the divisor");
  if (mode == 0) sym_assert(b_sgn(r.m) == 0 || r.neg == n.neg, "remainder has the sign of the dividend");
  else if (mode == 1) sym_assert(!r.neg, "remainder is not negative");
}
/* euclidean or flooring, whichever the library documents, is fixed by mode */
void h_div(void) {
  mpz_t n, d, q, r;
  int op = sym_param("op", 0);
  sgn a, b;
  mp_limb_t u;
  pat(n, "n byte", sym_param("xn", 3), sym_param("xp", 0), sym_param("xk", 0), sym_param("xm", 255));
  pat(d, "d byte", sym_param("yn", 2), sym_param("yp", 0), sym_param("yk", 0), sym_param("ym", 255));
  mpz_init(q); mpz_init(r);
  sym_assume(mpz_sgn(d) != 0);
  a = s_get(n); b = s_get(d);
  u = mpz_get_ui(d);
  switch (op) {
    case 0: mpz_quorem(q, r, n, d); check_div(a, b, s_get(q), s_get(r), 0); break;
    case 1: mpz_divmod(q, r, n, d); check_div(a, b, s_get(q), s_get(r), 1); break;
    case 2: mpz_quo(q, n, d); mpz_rem(r, n, d); check_div(a, b, s_get(q), s_get(r), 0); break;
    case 3: mpz_div(q, n, d); mpz_mod(r, n, d); check_div(a, b, s_get(q), s_get(r), 1); break;
    case 4: { mp_limb_t m = mpz_quo_ui(q, n, u), m2 = mpz_rem_ui(n, u); sgn rr = s_of(m, a.neg); check_div(a, s_of(u, 0), s_get(q), rr, 0); sym_assert(m == m2, "word remainder"); break; }
    case 5: { mp_limb_t m2 = mpz_mod_ui(n, u); mpz_div_ui(q, n, u); check_div(a, s_of(u, 0), s_get(q), s_of(m2, 0), 1); break; }
    case 6: mpz_mul(q, n, d); mpz_divexact(r, q, d); eq(r, s_val(a), "exact quotient"); break;
    case 7: { mpz_quorem(n, d, n, d); check_div(a, b, s_get(n), s_get(d), 0); break; }
    case 8: { mpz_mod(r, n, d); sym_assert(mpz_divisible_p(n, d) == (mpz_sgn(r) == 0), "divisibility"); break; }
    case 9: { mpz_divround(q, n, d); { sgn g = s_get(q); big e = b_sub(s_val(a), s_mul(g, b)), at; e = b_add(e, e); at = b_sgn(e) < 0 ? b_neg(e) : e; sym_assert(b_sgn(b_sub(at, b.m)) <= 0, "nearest quotient"); } break; }
  }
}

/* bytes in either order, any sizes */
void h_bytes(void) {
  size_t n = sym_pick(sym_param("min", 0), sym_param("max", 17), "size"), m = sym_pick(n, n + sym_param("extra", 2), "export size"), i;
  int le = sym_param("le", 0);
  uint8_t *in = malloc(n ? n : 1), *out = malloc(m ? m : 1), v[W];
  mpz_t x;
  mpz_init(x);
  sym_bytes(in, n, "bytes");
  mpz_import(x, in, n, le ? -1 : 1);
  memset(v, 0, sizeof v);
  for (i = 0; i < n; i++) v[i] = le ? in[i] : in[n - 1 - i];
  { big w; memcpy(&w, v, W); eq(x, w, "imported value"); }
  mpz_export(out, x, m, le ? -1 : 1);
  for (i = 0; i < m; i++) sym_assert(out[le ? i : m - 1 - i] == v[i], "exported value, zero filled at the top");
}

/* text: print then parse, and parse of any string */
static int digit0(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static uint8_t digits[256];
static int digit(uint8_t c) { return digits[c]; }
static void mkdigits(void) { int i; for (i = 0; i < 256; i++) digits[i] = (uint8_t)digit0(i); }
void h_str(void) {
  int base = sym_param("base", 10);
  mpz_t x, y;
  char *s;
  size_t n, i;
  mp_limb_t v = 0;
  uint64_t w = 0;
  int neg = sym_pick(0, 1, "negative");
  mkdigits();
  sym_bytes(&v, sym_param("bytes", 1), "value");
  v &= sym_param("mask", 255);
  v <<= sym_param("shl", 0);
  mpz_init(x); mpz_init(y);
  mpz_set_ui(x, v);
  if (neg) mpz_neg(x, x);
  sym_merge(0);
  s = mpz_get_str(x, base);
  n = strlen(s);
  n = sym_concretize(n);
  i = 0;
  if (neg && v) { sym_assert(s[0] == '-', "minus sign"); i = 1; }
  sym_assert(n > i, "digits");
  sym_assert(s[i] != '0' || n == i + 1, "no leading zeros");
  sym_assert(mpz_sizeinbase(x, base) >= n - i, "announced size suffices");
  for (; i < n; i++) { int d = digit(s[i]); sym_assert(d < base, "digit"); w = w * base + d; }
  sym_assert(w == v, "printed value");
  sym_assert(mpz_set_str(y, s, base) == 1, "parses");
  sym_assert(mpz_cmp(x, y) == 0, "round trip");
}
void h_parse(void) {
  int base = sym_param("base", 10), ok = 1, neg = 0, r;
  size_t n = sym_pick(0, sym_param("max", 3), "len"), i = 0;
  char *s = malloc(n + 1);
  uint64_t w = 0;
  mpz_t y;
  mkdigits();
  sym_merge(0);
  sym_bytes(s, n, "text");
  s[n] = 0;
  for (i = 0; i < n; i++) { /* no blanks: the parser skips them */
    uint8_t c = s[i];
    sym_assume((c != 0) & (c != ' ') & ((c < 9) | (c > 13)));
    if (sym_param("noprefix", 1)) {}
  }
  mpz_init(y);
  mpz_set_ui(y, 5);
  r = mpz_set_str(y, s, base);
  i = 0;
  if (n && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; i = 1; }
  if (i == n) return; /* no digits at all: unspecified */
  for (; i < n; i++) { int d = digit((uint8_t)s[i]); if (d >= base) ok = 0; w = w * base + (unsigned)d; }
  if (!ok) { sym_assert(r == 0, "malformed text is rejected"); return; }
  sym_assert(r == 1, "well-formed text is accepted");
  { mp_limb_t g = mpz_get_ui(y); sym_assert(g == w && mpz_sgn(y) == (w == 0 ? 0 : neg ? -1 : 1), "parsed value"); }
}

/* small-number oracles as tables over one symbolic byte */
static unsigned sgcd(unsigned a, unsigned b) { while (b) { unsigned t = a % b; a = b; b = t; } return a; }
static int sjac(int a, int n) { int t = 1; a %= n; while (a) { while (!(a & 1)) { a >>= 1; if ((n & 7) == 3 || (n & 7) == 5) t = -t; } { int x = a; a = n; n = x; } if ((a & 3) == 3 && (n & 3) == 3) t = -t; a %= n; } return n == 1 ? t : 0; }
static unsigned spow(unsigned a, unsigned e, unsigned m) { unsigned r = 1 % m; while (e--) r = r * a % m; return r; }
void h_small(void) {
  int op = sym_param("op", 0);
  unsigned m = sym_param("m", 15), i, sh = sym_param("sh", 0);
  uint32_t tab[256];
  uint8_t v = sym_u8("value");
  mpz_t x, y, z, s, t;
  mpz_init(x); mpz_init(y); mpz_init(z); mpz_init(s); mpz_init(t);
  v &= sym_param("mask", 255);
  mpz_set_ui(x, v);
  mpz_set_ui(y, m);
  switch (op) {
    case 0:
      for (i = 0; i < 256; i++) tab[i] = sgcd(i, m);
      mpz_mul_2exp(x, x, sh); mpz_mul_2exp(y, y, sh);
      mpz_gcd(z, x, y);
      mpz_quo_2exp(z, z, sh);
      sym_assert(mpz_get_ui(z) == tab[v] && mpz_sgn(z) > 0, "gcd"); break;
    case 1:
      for (i = 0; i < 256; i++) tab[i] = sgcd(i, m);
      mpz_gcdext(z, s, t, x, y);
      sym_assert(mpz_get_ui(z) == tab[v], "gcd");
      mpz_mul(s, s, x); mpz_mul(t, t, y); mpz_add(s, s, t);
      sym_assert(mpz_cmp(s, z) == 0, "Bezout identity"); break;
    case 2: {
      int r;
      for (i = 0; i < 256; i++) tab[i] = sgcd(i, m) == 1;
      r = mpz_invert(z, x, y);
      sym_assert(r == (int)tab[v], "inverse exists exactly for coprime values");
      if (r) { unsigned q = (unsigned)mpz_get_ui(z); sym_assert(mpz_sgn(z) >= 0 && q < m, "inverse reduced"); sym_assert(q * v % m == 1 % m, "inverse"); }
      break; }
    case 3:
      for (i = 0; i < 256; i++) tab[i] = sjac(i, m) + 1;
      sym_assert(mpz_jacobi(x, y) + 1 == (int)tab[v], "Jacobi symbol"); break;
    case 4: case 5: { /* value to a fixed power */
      unsigned e = sym_param("e", 5);
      for (i = 0; i < 256; i++) tab[i] = spow(i % m, e, m);
      mpz_set_ui(t, e);
      if (op == 4) mpz_powm(z, x, t, y); else mpz_powm_sec(z, x, t, y);
      sym_assert(mpz_get_ui(z) == tab[v] && mpz_size(z) <= 1, "modular power"); break; }
    case 6: case 7: { /* fixed base to the value */
      unsigned b = sym_param("e", 5);
      for (i = 0; i < 256; i++) tab[i] = spow(b % m, i, m);
      mpz_set_ui(t, b);
      if (op == 6) mpz_powm(z, t, x, y); else mpz_powm_sec(z, t, x, y);
      sym_assert(mpz_get_ui(z) == tab[v] && mpz_size(z) <= 1, "modular power"); break; }
    case 8: {
      unsigned k;
      for (i = 0; i < 256; i++) { for (k = 0; (k + 1) * (k + 1) <= i; k++) {} tab[i] = k; }
      mpz_sqrtrem(z, t, x);
      sym_assert(mpz_get_ui(z) == tab[v] && mpz_get_ui(t) == v - tab[v] * tab[v], "square root");
      sym_assert(mpz_perfect_square_p(x) == (tab[v] * tab[v] == v), "perfect square"); break; }
    case 9: { /* modular square root, m prime */
      int r; unsigned k;
      for (i = 0; i < 256; i++) { tab[i] = 0; for (k = 0; k < m; k++) if (k * k % m == i % m) tab[i] = 1; }
      r = mpz_sqrtm(z, x, y);
      sym_assert(r == (int)tab[v], "root exists exactly for residues");
      if (r) { unsigned q = (unsigned)mpz_get_ui(z); sym_assert(q < m && q * q % m == v % m, "modular root"); }
      break; }
    case 10:
      for (i = 0; i < 256; i++) tab[i] = i * m / sgcd(i ? i : m, m);
      mpz_lcm(z, x, y);
      sym_assert(mpz_get_ui(z) == tab[v], "lcm"); break;
  }
}
