/* Checksummed address encodings (bech32, cashaddr). The expected checksum
   comes from a bit-serial reference for the BCH codes of BIP173 and the
   cashaddr specification. */
#include <stdlib.h>
#include <string.h>
#include "sym.h"
#include <torsion/encoding.h>

static const char cs[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";

static uint32_t ref_bech(uint32_t c, unsigned v) {
  static const uint32_t g[5] = { 0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3 };
  uint32_t b = c >> 25, r = ((c & 0x1ffffff) << 5) ^ v;
  int i;
  for (i = 0; i < 5; i++) r ^= (0 - ((b >> i) & 1)) & g[i];
  return r;
}
static uint64_t ref_cash(uint64_t c, unsigned v) {
  static const uint64_t g[5] = { 0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470 };
  uint64_t b = c >> 35, r = ((c & 0x07ffffffffull) << 5) ^ v;
  int i;
  for (i = 0; i < 5; i++) r ^= (0 - ((b >> i) & 1)) & g[i];
  return r;
}

/* reference text for a lowercase prefix and 5-bit data */
static size_t ref_text(int cash, char *out, const char *hrp, size_t hl, const uint8_t *d, size_t n, uint32_t final) {
  size_t i, j = 0;
  if (!cash) {
    uint32_t c = 1;
    for (i = 0; i < hl; i++) c = ref_bech(c, (uint8_t)hrp[i] >> 5);
    c = ref_bech(c, 0);
    for (i = 0; i < hl; i++) c = ref_bech(c, hrp[i] & 31);
    for (i = 0; i < n; i++) c = ref_bech(c, d[i]);
    for (i = 0; i < 6; i++) c = ref_bech(c, 0);
    c ^= final;
    for (i = 0; i < hl; i++) out[j++] = hrp[i];
    out[j++] = '1';
    for (i = 0; i < n; i++) out[j++] = cs[d[i]];
    for (i = 0; i < 6; i++) out[j++] = cs[(c >> 5 * (5 - i)) & 31];
  } else {
    uint64_t c = 1;
    for (i = 0; i < hl; i++) c = ref_cash(c, hrp[i] & 31);
    c = ref_cash(c, 0);
    for (i = 0; i < n; i++) c = ref_cash(c, d[i]);
    for (i = 0; i < 8; i++) c = ref_cash(c, 0);
    c ^= 1;
    for (i = 0; i < hl; i++) out[j++] = hrp[i];
    out[j++] = ':';
    for (i = 0; i < n; i++) out[j++] = cs[d[i]];
    for (i = 0; i < 8; i++) out[j++] = cs[(c >> 5 * (7 - i)) & 31];
  }
  return j;
}

/* groups of 5 bits from bytes, most significant first, zero padded */
static size_t ref_bits(uint8_t *out, const uint8_t *in, size_t n) {
  size_t total = n * 8, i, k, m = (total + 4) / 5;
  for (i = 0; i < m; i++) {
    unsigned v = 0;
    for (k = 0; k < 5; k++) {
      size_t p = i * 5 + k;
      v = (v << 1) | (p < total ? (in[p / 8] >> (7 - p % 8)) & 1 : 0);
    }
    out[i] = v;
  }
  return m;
}

static int ser(int cash, char *s, const char *hrp, const uint8_t *d, size_t n, uint32_t ck) {
  return cash ? cash32_serialize(s, hrp, d, n) : bech32_serialize(s, hrp, d, n, ck);
}

/* hrp of 1..hmax characters, 0..nmax groups, all symbolic */
void h_ser(void) {
  int cash = sym_param("cash", 0);
  size_t hl = sym_pick(0, sym_param("hmax", 3), "hrp length"), n = sym_pick(0, sym_param("nmax", 6), "groups"), i, len, on = 0;
  char *hrp = malloc(hl + 1), ref[256], *str, hout[CASH32_MAX_PREFIX_SIZE + 1];
  uint8_t *d = malloc(n ? n : 1), dout[CASH32_MAX_DESERIALIZE_SIZE];
  uint32_t ck = sym_u32("checksum constant");
  int ok = 1, r;
  /* the final constant occupies the 30 checksum bits */
  sym_assume(ck < (1u << 30));
  sym_bytes(hrp, hl, "hrp");
  hrp[hl] = 0;
  if (!sym_param("anyhrp", 0)) /* valid by construction: sixty-four admissible characters */
    for (i = 0; i < hl; i++)
      hrp[i] = cash ? "abcdefghijklmnopqrstuvwxyzabcdef"[hrp[i] & 31] : "!#$%&*+-./0123456789:;<=?@[]^_`abcdefghijklmnopqrstuvwxyz{|}~\"'("[hrp[i] & 63];
  sym_bytes(d, n, "groups");
  for (i = 0; i < n; i++)
    if (i != sym_param("wild", 99)) d[i] &= 31;
  for (i = 0; i < hl; i++) {
    uint8_t ch = hrp[i];
    sym_assume(ch != 0);
    ok &= cash ? ch >= 'a' && ch <= 'z' : ch >= 33 && ch <= 126 && !(ch >= 'A' && ch <= 'Z');
  }
  for (i = 0; i < n; i++) ok &= d[i] < 32;
  ok &= hl > 0;
  str = malloc(hl + 1 + n + (cash ? 8 : 6) + 1);
  r = ser(cash, str, hrp, d, n, ck);
  sym_assert(r == ok, "serializes exactly valid prefixes and groups");
  if (!r || sym_param("wild", 99) < n || sym_param("anyhrp", 0)) return;
  len = ref_text(cash, ref, hrp, hl, d, n, ck);
  sym_assert_eq(str, ref, len, "text");
  sym_assert(str[len] == 0, "terminated");
  if (cash)
    r = cash32_deserialize(hout, dout, &on, str, "x");
  else
    r = bech32_deserialize(hout, dout, &on, str, ck);
  sym_assert(r == 1, "own text is accepted");
  sym_assert(on == n, "group count");
  sym_assert_eq(dout, d, n, "groups");
  sym_assert_eq(hout, hrp, hl + 1, "prefix");
  sym_assert((cash ? cash32_is(str, "x") : bech32_is(str, ck)) == 1, "own text passes the test");
}

/* any string of the given length: accepted texts are canonical */
void h_des(void) {
  int cash = sym_param("cash", 0), r;
  size_t n = sym_pick(sym_param("min", 0), sym_param("max", 10), "len"), i, on = 0, hl, len;
  char *s = malloc(n + 1), *low = malloc(n + 1), ref[256], hout[CASH32_MAX_PREFIX_SIZE + 1];
  uint8_t dout[CASH32_MAX_DESERIALIZE_SIZE];
  uint32_t ck = sym_param("ck", 1);
  const char *fb = "ab";
  int up = 0, lo = 0, sep = 0;
  sym_bytes(s, n, "text");
  s[n] = 0;
  for (i = 0; i < n; i++) {
    uint8_t ch = s[i];
    sym_assume(ch != 0);
    up |= ch >= 'A' && ch <= 'Z';
    lo |= ch >= 'a' && ch <= 'z';
    sep |= ch == ':';
    low[i] = ch >= 'A' && ch <= 'Z' ? ch + 32 : ch;
  }
  r = cash ? cash32_deserialize(hout, dout, &on, s, fb) : bech32_deserialize(hout, dout, &on, s, ck);
  sym_assert((cash ? cash32_is(s, fb) : bech32_is(s, ck)) == r, "is agrees with deserialize");
  if (!r) { sym_reach("rejected"); return; }
  sym_reach("accepted");
  sym_assert(!(up && lo), "mixed case is rejected");
  on = sym_concretize(on);
  for (hl = 0; hout[hl]; hl++) {}
  hl = sym_concretize(hl);
  len = ref_text(cash, ref, hout, hl, dout, on, ck);
  if (cash && !sep) {
    sym_assert(hl == 2 && hout[0] == 'a' && hout[1] == 'b', "fallback prefix");
    sym_assert(len == n + 3, "length");
    sym_assert_eq(low, ref + 3, n, "accepted text is canonical");
  } else {
    sym_assert(len == n, "length");
    sym_assert_eq(low, ref, n, "accepted text is canonical");
  }
}

/* address layer: any hash of the given size, any version, fixed prefix */
void h_addr(void) {
  int cash = sym_param("cash", 0), r;
  size_t n = sym_param("n", 20), ol = 0, gl, len;
  uint8_t *h = malloc(n ? n : 1), hout[CASH32_MAX_HASH_SIZE], tmp[1 + 80], g[160];
  unsigned ver = sym_u32("version"), vout = 0;
  char addr[CASH32_MAX_SERIALIZE_SIZE + 1], ref[256], hrp[CASH32_MAX_PREFIX_SIZE + 1];
  const char *pre = cash ? "bitcoincash" : "bc";
  int okn = cash ? n == 20 || n == 24 || n == 28 || n == 32 || n == 40 || n == 48 || n == 56 || n == 64 : n >= 2 && n <= 40;
  sym_bytes(h, n, "hash");
  if (!sym_param("anyver", 0)) ver = cash ? ver & 15 : ver & 31;
  r = cash ? cash32_encode(addr, pre, ver, h, n) : bech32_encode(addr, pre, ver, h, n, 1);
  sym_assert(r == (okn && ver <= (cash ? CASH32_MAX_TYPE : BECH32_MAX_VERSION)), "encodes exactly valid sizes and versions");
  if (!r || sym_param("anyver", 0)) return;
  if (cash) {
    size_t k = 0;
    static const size_t sz[8] = { 20, 24, 28, 32, 40, 48, 56, 64 };
    while (sz[k] != n) k++;
    tmp[0] = (ver << 3) | k;
    memcpy(tmp + 1, h, n);
    gl = ref_bits(g, tmp, n + 1);
  } else {
    g[0] = ver;
    gl = 1 + ref_bits(g + 1, h, n);
  }
  len = ref_text(cash, ref, pre, strlen(pre), g, gl, 1);
  sym_assert_eq(addr, ref, len, "address text");
  sym_assert(addr[len] == 0, "terminated");
  r = cash ? cash32_decode(&vout, hout, &ol, addr, pre) : bech32_decode(hrp, &vout, hout, &ol, addr, 1);
  sym_assert(r == 1, "own address decodes");
  sym_assert(vout == ver, "version");
  sym_assert(ol == n, "hash length");
  sym_assert_eq(hout, h, n, "hash");
  if (!cash) sym_assert_eq(hrp, pre, 3, "prefix");
  sym_assert((cash ? cash32_test(addr, pre) : bech32_test(addr, 1)) == 1, "own address passes the test");
  if (cash) sym_assert(cash32_decode(&vout, hout, &ol, addr, "bchtest") == 0, "other prefix is rejected");
}

/* address layer, arbitrary groups with a correct checksum: what decodes is
   canonical (padding bits zero, size and version valid) */
void h_addr_any(void) {
  int cash = sym_param("cash", 0), r;
  size_t gl = sym_param("groups", 5), ol = 0, i, bits, want;
  uint8_t g[128], g2[160], hout[CASH32_MAX_HASH_SIZE + 8], tmp[96];
  char s[256], hrp[CASH32_MAX_PREFIX_SIZE + 1];
  const char *pre = cash ? "bitcoincash" : "bc";
  unsigned v = 0, pad, top;
  int ok;
  sym_bytes(g, gl, "groups");
  for (i = 0; i < gl; i++) g[i] &= 31;
  s[ref_text(cash, s, pre, strlen(pre), g, gl, 1)] = 0;
  r = cash ? cash32_decode(&v, hout, &ol, s, pre) : bech32_decode(hrp, &v, hout, &ol, s, 1);
  bits = 5 * (cash ? gl : gl ? gl - 1 : 0);
  pad = bits % 8;
  want = bits / 8;
  ok = gl > 0 && pad < 5;
  if (ok && pad) ok = (g[gl - 1] & ((1u << pad) - 1)) == 0;
  if (cash) {
    static const size_t sz[8] = { 20, 24, 28, 32, 40, 48, 56, 64 };
    int k, fit = 0;
    ok = ok && gl > 1;
    if (gl > 1) {
      top = (g[0] << 3) | (g[1] >> 2);
      for (k = 0; k < 8; k++) fit |= (int)(top & 7) == k && want >= 1 && sz[k] == want - 1;
      ok = ok && fit && (top >> 3) <= CASH32_MAX_TYPE;
    }
  } else {
    ok = ok && g[0] <= BECH32_MAX_VERSION && want >= 2 && want <= 40;
  }
  sym_assert(r == ok, "accepts exactly canonical payloads");
  sym_assert((cash ? cash32_test(s, pre) : bech32_test(s, 1)) == r, "test agrees with decode");
  if (!r) return;
  if (cash) {
    sym_assert(ol == want - 1, "hash length");
    tmp[0] = (v << 3) | (g[1] >> 2 & 7);
    memcpy(tmp + 1, hout, want - 1);
    ref_bits(g2, tmp, want);
    sym_assert_eq(g2, g, gl, "payload kept");
  } else {
    sym_assert(ol == want, "hash length");
    sym_assert(v == g[0], "version");
    ref_bits(g2, hout, want);
    sym_assert_eq(g2, g + 1, gl - 1, "payload kept");
  }
}

/* two positions of a valid text changed to other valid characters: the
   checksum catches it. Both changes symbolic; the text is the one of the
   given length with fixed data, except one symbolic group. */
void h_detect(void) {
  int cash = sym_param("cash", 0), r;
  size_t n = sym_param("n", 10), total, i, p, q, on, k;
  uint8_t g[160], dout[CASH32_MAX_DESERIALIZE_SIZE], inv[256];
  char s[256], hout[CASH32_MAX_PREFIX_SIZE + 1];
  const char *pre = cash ? "bitcoincash" : "bc";
  size_t hl = strlen(pre);
  unsigned a = sym_u8("first change") & 31, b = sym_u8("second change") & 31;
  memset(inv, 0, sizeof inv);
  for (i = 0; i < 32; i++) inv[(uint8_t)cs[i]] = i;
  for (i = 0; i < n; i++) g[i] = (i * 7 + 3) & 31;
  total = ref_text(cash, s, pre, hl, g, n, 1);
  s[total] = 0;
  k = total - (hl + 1);
  p = sym_pick(0, k - 1, "first position");
  q = sym_pick(p + 1, k, "second position");
  sym_assume(a != 0);
  s[hl + 1 + p] = cs[inv[(uint8_t)s[hl + 1 + p]] ^ a];
  if (q < k) s[hl + 1 + q] = cs[inv[(uint8_t)s[hl + 1 + q]] ^ b];
  r = cash ? cash32_deserialize(hout, dout, &on, s, "x") : bech32_deserialize(hout, dout, &on, s, 1);
  sym_assert(r == 0, "one or two changed characters are detected");
}
