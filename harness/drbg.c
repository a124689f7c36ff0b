/* DRBGs against the state machines of SP 800-90A over an abstract hash / block cipher */
#include <torsion/drbg.h>
#include <torsion/cipher.h>
#include "hstub.h"

static unsigned char buf[2400]; static size_t bn;
static void put(const void *p, size_t n) { memcpy(buf + bn, p, n); bn += n; }
static void put1(int c) { buf[bn++] = c; }
static size_t choose(const char *n, const int *t, int k) { return (size_t)t[sym_pick(0, k - 1, n)]; }

/* a history: init, then two steps, each generate (with or without additional input) or reseed */
typedef void (*fi)(const unsigned char *, size_t); typedef void (*fg)(unsigned char *, size_t, const unsigned char *, size_t);
static hash_id_t HT; static size_t HS;

/* ---- HMAC-DRBG ---- */
static unsigned char rK[64], rV[64];
static void hu(const unsigned char *d, size_t n) {
  int r; for (r = 0; r < (n ? 2 : 1); r++) { bn = 0; put(rV, HS); put1(r); put(d, n); HM_(HT, rK, rK, HS, buf, bn); HM_(HT, rV, rK, HS, rV, HS); }
}
static void hmac_ri(const unsigned char *d, size_t n) { memset(rK, 0, HS); memset(rV, 1, HS); hu(d, n); }
static void hmac_rr(const unsigned char *d, size_t n) { hu(d, n); }
static void hmac_rg(unsigned char *o, size_t len, const unsigned char *a, size_t an) {
  size_t i; if (an) hu(a, an);
  for (i = 0; i < len; i++) { if (i % HS == 0) HM_(HT, rV, rK, HS, rV, HS); o[i] = rV[i % HS]; }
  hu(a, an);
}
/* ---- Hash-DRBG ---- */
static unsigned char dV[111], dC[111]; static uint64_t ctr; static size_t SL;
static void df(unsigned char *o) { /* Hash_df over buf[5..] */
  size_t i; unsigned char t[64];
  for (i = 0; i * HS < SL; i++) { size_t k = SL - i * HS; uint32_t b = SL * 8; buf[0] = i + 1; buf[1] = b >> 24; buf[2] = b >> 16; buf[3] = b >> 8; buf[4] = b; H_(HT, t, buf, bn); memcpy(o + i * HS, t, k < HS ? k : HS); }
}
static void hash_c(void) { bn = 5; put1(0); put(dV, SL); df(dC); ctr = 1; }
static void hash_ri(const unsigned char *d, size_t n) { SL = HS <= 32 ? 55 : 111; bn = 5; put(d, n); df(dV); hash_c(); }
static void hash_rr(const unsigned char *d, size_t n) { bn = 5; put1(1); put(dV, SL); put(d, n); df(dV); hash_c(); }
static void addv(unsigned char *v, const unsigned char *x, size_t n) { unsigned c = 0; size_t i; for (i = 0; i < SL; i++) { c += v[SL - 1 - i] + (i < n ? x[n - 1 - i] : 0u); v[SL - 1 - i] = c & 255; c >>= 8; } }
static void hash_rg(unsigned char *o, size_t len, const unsigned char *a, size_t an) {
  unsigned char t[64], w[111], one = 1, l[8]; size_t i;
  if (an) { bn = 0; put1(2); put(dV, SL); put(a, an); H_(HT, t, buf, bn); addv(dV, t, HS); }
  memcpy(w, dV, SL);
  for (i = 0; i < len; i++) { if (i % HS == 0) { H_(HT, t, w, SL); addv(w, &one, 1); } o[i] = t[i % HS]; }
  bn = 0; put1(3); put(dV, SL); H_(HT, t, buf, bn); addv(dV, t, HS); addv(dV, dC, SL);
  for (i = 0; i < 8; i++) l[i] = ctr >> (56 - 8 * i);
  addv(dV, l, 8); ctr++;
}
static hmac_drbg_t md; static hash_drbg_t hd;
static void mi(const unsigned char *d, size_t n) { hmac_drbg_init(&md, HT, d, n); }
static void mr(const unsigned char *d, size_t n) { hmac_drbg_reseed(&md, d, n); }
static void mg(unsigned char *o, size_t n, const unsigned char *a, size_t an) { hmac_drbg_generate(&md, o, n, a, an); }
static void mrng(unsigned char *o, size_t n, const unsigned char *a, size_t an) { (void)a; (void)an; hmac_drbg_rng(o, n, &md); }
static void di(const unsigned char *d, size_t n) { hash_drbg_init(&hd, HT, d, n); }
static void dr(const unsigned char *d, size_t n) { hash_drbg_reseed(&hd, d, n); }
static void dg(unsigned char *o, size_t n, const unsigned char *a, size_t an) { hash_drbg_generate(&hd, o, n, a, an); }
static void drng(unsigned char *o, size_t n, const unsigned char *a, size_t an) { (void)a; (void)an; hash_drbg_rng(o, n, &hd); }

static void history(fi ri, fi rr, fg rg, fi i, fi r, fg g, fg rng, int steps) {
  static unsigned char seed[70], add[70], o[200], e[200]; int TS[] = {0, 1, 33}, TL[] = {0, 1, -1, 0, 1, 3}; size_t n, len; int k, what;
  n = choose("seed", TS, 3); sym_bytes(seed, n, "seed"); ri(seed, n); i(seed, n);
  for (k = 0; k < steps; k++) {
    what = (int)sym_pick(0, k == steps - 1 ? 1 : 3, "step");   /* generate, generate+input, rng, reseed */
    if (what == 3) { n = choose("seed2", TS, 3); sym_bytes(seed, n, "seed2"); rr(seed, n); r(seed, n); continue; }
    n = what == 1 ? 1 + 32 * sym_pick(0, 1, "addlen") : 0; sym_bytes(add, n, "add");
    len = sym_pick(0, 5, "len"); len = len < 2 ? len : len == 5 ? 2 * HS + 3 : HS + TL[len];
    memset(o, 0x5a, sizeof o);
    rg(e, len, add, n); if (what == 2) rng(o, len, 0, 0); else g(o, len, add, n);
    sym_assert_eq(o, e, len, "output"); sym_assert(o[len] == 0x5a, "nothing written past the requested length");
  }
}
void h_hmac_drbg(void) { HT = sym_param("type", HASH_SHA256); HS = hash_output_size(HT); abstract_hash(); history(hmac_ri, hmac_rr, hmac_rg, mi, mr, mg, mrng, (int)sym_param("steps", 3)); }
void h_hash_drbg(void) { HT = sym_param("type", HASH_SHA256); HS = hash_output_size(HT); abstract_hash(); history(hash_ri, hash_rr, hash_rg, di, dr, dg, drng, (int)sym_param("steps", 2)); }
/* one generate from an arbitrary internal state: carries of the state addition */
void h_hash_state(void) {
  static unsigned char o[80], e[80], add[4]; int an; size_t len;
  HT = sym_param("type", HASH_SHA256); HS = hash_output_size(HT); abstract_hash(); SL = HS <= 32 ? 55 : 111;
  hash_drbg_init(&hd, HT, add, 0);
  sym_bytes(dV, SL, "V"); sym_bytes(dC, SL, "C"); ctr = sym_u64("ctr");
  memcpy(hd.V, dV, SL); memcpy(hd.C, dC, SL); hd.rounds = ctr;
  an = (int)sym_pick(0, 1, "an") * 3; sym_bytes(add, an, "add"); len = sym_pick(0, 1, "len") ? HS + 1 : 0;
  hash_rg(e, len, add, an); hash_drbg_generate(&hd, o, len, add, an);
  sym_assert_eq(o, e, len, "output");
  sym_assert_eq(hd.V, dV, SL, "state V = V + H + C + counter"); sym_assert_eq(hd.C, dC, SL, "constant C"); sym_assert(hd.rounds == ctr, "reseed counter advances by one");
}
/* ---- CTR-DRBG ---- */
typedef struct { size_t n; unsigned char k[32]; } akey;
static void a_init(aes_t *c, unsigned bits, const unsigned char *k) { akey *s = (akey *)c; s->n = bits / 8; memcpy(s->k, k, s->n); }
static void a_enc(const aes_t *c, unsigned char *d, const unsigned char *s) { const akey *k = (const akey *)c; sym_perm(d, s, 16, k->k, k->n, 1, "aes"); }
static size_t KS, ES; static unsigned char cK[32], cV[16]; static int DF;
static void E_(const unsigned char *k, unsigned char *o, const unsigned char *i) { aes_t a; aes_init_encrypt(&a, KS * 8, k); aes_encrypt(&a, o, i); }
static void inc(void) { unsigned c = 1; int i; for (i = 15; i >= 0; i--) { c += cV[i]; cV[i] = c & 255; c >>= 8; } }
static void cu(const unsigned char *d, size_t n) { unsigned char t[48]; size_t i; for (i = 0; i < ES; i += 16) { unsigned char b[16]; inc(); E_(cK, b, cV); memcpy(t + i, b, ES - i < 16 ? ES - i : 16); } for (i = 0; i < ES && i < n; i++) t[i] ^= d[i]; memcpy(cK, t, KS); memcpy(cV, t + KS, 16); }
static void block_df(unsigned char *o, const unsigned char *a, size_t an, const unsigned char *b, size_t bl) {
  unsigned char K[32], t[64], x[16], ch[16]; size_t i, j, k; uint32_t L = an + bl, N = ES;
  bn = 16; put1(L >> 24); put1(L >> 16); put1(L >> 8); put1(L); put1(0); put1(0); put1(0); put1(N); put(a, an); put(b, bl); put1(0x80); while (bn % 16) put1(0);
  for (i = 0; i < KS; i++) K[i] = i;
  for (i = 0; i * 16 < ES; i++) { memset(buf, 0, 16); buf[3] = i; memset(ch, 0, 16); for (j = 0; j < bn; j += 16) { for (k = 0; k < 16; k++) ch[k] ^= buf[j + k]; E_(K, x, ch); memcpy(ch, x, 16); } memcpy(t + 16 * i, ch, 16); }
  memcpy(K, t, KS); memcpy(x, t + KS, 16);
  for (i = 0; i < ES; i += 16) { E_(K, ch, x); memcpy(x, ch, 16); memcpy(o + i, x, ES - i < 16 ? ES - i : 16); }
}
static void ent(unsigned char *e, const unsigned char *a, size_t an, const unsigned char *b, size_t bl) { size_t i; if (DF) { block_df(e, a, an, b, bl); return; } for (i = 0; i < ES; i++) e[i] = (i < an ? a[i] : 0) ^ (i < bl ? b[i] : 0); }
static void ctr_rg(unsigned char *o, size_t len, const unsigned char *a, size_t an) {
  unsigned char t[48], b[16]; size_t i;
  if (an) { if (DF) { block_df(t, a, an, 0, 0); a = t; an = ES; } cu(a, an); }
  for (i = 0; i < len; i++) { if (i % 16 == 0) { inc(); E_(cK, b, cV); } o[i] = b[i % 16]; }
  cu(a, an);
}
void h_ctr_drbg(void) {
  static unsigned char a[80], b[80], e[48], o[64], x[64]; static ctr_drbg_t d; size_t an, bl, len; int k, steps = (int)sym_param("steps", 2), what; static const int TA[] = {0, 1, 31, 48, 60}, TL[] = {0, 1, 15, 16, 17, 35};
  KS = sym_param("bits", 256) / 8; ES = KS + 16; DF = (int)sym_param("df", 1);
  OVERRIDE(aes_init_encrypt, a_init); OVERRIDE(aes_encrypt, a_enc);
  an = choose("an", TA, 5); bl = choose("bl", TA, 3); sym_bytes(a, an, "a"); sym_bytes(b, bl, "b");
  memset(cK, 0, 32); memset(cV, 0, 16); ent(e, a, an, b, bl); cu(e, ES);
  ctr_drbg_init(&d, KS * 8, DF, a, an, b, bl);
  for (k = 0; k < steps; k++) {
    what = (int)sym_pick(0, k == steps - 1 ? 1 : 3, "step");
    if (what == 3) { an = sym_pick(0, 1, "an2") * 33; bl = sym_pick(0, 1, "bl2") * 5; sym_bytes(a, an, "a2"); sym_bytes(b, bl, "b2"); ent(e, a, an, b, bl); cu(e, ES); ctr_drbg_reseed(&d, a, an, b, bl); continue; }
    an = what == 1 ? (sym_pick(0, 1, "al") ? 60 : 1) : 0; sym_bytes(a, an, "add"); len = choose("len", TL, 6);
    memset(o, 0x5a, sizeof o);
    ctr_rg(x, len, a, an); if (what == 2) ctr_drbg_rng(o, len, &d); else ctr_drbg_generate(&d, o, len, a, an);
    sym_assert_eq(o, x, len, "output"); sym_assert(o[len] == 0x5a, "nothing written past the requested length");
  }
}
