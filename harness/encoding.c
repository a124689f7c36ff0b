/* Text encodings: every byte string survives a round trip through every
   encoding, and every string a decoder accepts is the encoding of what it
   decodes to (up to case where the alphabet is case-insensitive). The
   expected text comes from a bit-at-a-time reference written from RFC 4648
   and the base58 definition. All buffers have exactly the announced size. */
#include <stdlib.h>
#include <string.h>
#include "sym.h"
#include <torsion/encoding.h>

enum { B16, B16LE, B32, B32P, B32H, B32HP, B58, B64, B64U };

static const char *alpha(int c) {
  switch (c) {
    case B16: case B16LE: return "0123456789abcdef";
    case B32: case B32P: return "abcdefghijklmnopqrstuvwxyz234567";
    case B32H: case B32HP: return "0123456789abcdefghijklmnopqrstuv";
    case B58: return "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    case B64: return "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    default: return "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  }
}
static int bits_of(int c) { return c <= B16LE ? 4 : c <= B32HP ? 5 : 6; }
static int folds(int c) { return c <= B32HP; }
static int padded(int c) { return c == B32P || c == B32HP || c == B64; }

static size_t enc_size(int c, size_t n) {
  switch (c) {
    case B16: return base16_encode_size(n);
    case B16LE: return base16le_encode_size(n);
    case B32: return base32_encode_size(n, 0);
    case B32P: return base32_encode_size(n, 1);
    case B32H: return base32hex_encode_size(n, 0);
    case B32HP: return base32hex_encode_size(n, 1);
    case B58: return BASE58_ENCODE_SIZE(n);
    case B64: return base64_encode_size(n);
    default: return base64url_encode_size(n);
  }
}
static void enc(int c, char *d, size_t *dl, const uint8_t *s, size_t n) {
  switch (c) {
    case B16: base16_encode(d, dl, s, n); break;
    case B16LE: base16le_encode(d, dl, s, n); break;
    case B32: base32_encode(d, dl, s, n, 0); break;
    case B32P: base32_encode(d, dl, s, n, 1); break;
    case B32H: base32hex_encode(d, dl, s, n, 0); break;
    case B32HP: base32hex_encode(d, dl, s, n, 1); break;
    case B58: sym_assert(base58_encode(d, dl, s, n) == 1, "base58 encodes"); break;
    case B64: base64_encode(d, dl, s, n); break;
    default: base64url_encode(d, dl, s, n); break;
  }
}
static size_t dec_size(int c, const char *s, size_t n) {
  switch (c) {
    case B16: return base16_decode_size(n);
    case B16LE: return base16le_decode_size(n);
    case B32: case B32P: return base32_decode_size(s, n);
    case B32H: case B32HP: return base32hex_decode_size(s, n);
    case B58: return BASE58_DECODE_SIZE(n);
    case B64: return base64_decode_size(s, n);
    default: return base64url_decode_size(s, n);
  }
}
static int dec(int c, uint8_t *d, size_t *dl, const char *s, size_t n) {
  switch (c) {
    case B16: return base16_decode(d, dl, s, n);
    case B16LE: return base16le_decode(d, dl, s, n);
    case B32: return base32_decode(d, dl, s, n, 0);
    case B32P: return base32_decode(d, dl, s, n, 1);
    case B32H: return base32hex_decode(d, dl, s, n, 0);
    case B32HP: return base32hex_decode(d, dl, s, n, 1);
    case B58: return base58_decode(d, dl, s, n);
    case B64: return base64_decode(d, dl, s, n);
    default: return base64url_decode(d, dl, s, n);
  }
}
static int test(int c, const char *s, size_t n) {
  switch (c) {
    case B16: return base16_test(s, n);
    case B16LE: return base16le_test(s, n);
    case B32: return base32_test(s, n, 0);
    case B32P: return base32_test(s, n, 1);
    case B32H: return base32hex_test(s, n, 0);
    case B32HP: return base32hex_test(s, n, 1);
    case B58: return base58_test(s, n);
    case B64: return base64_test(s, n);
    default: return base64url_test(s, n);
  }
}

/* reference: big-endian bit string cut into digits, zero filled, '=' padded
   to a whole quantum */
static size_t ref_enc(int c, char *d, const uint8_t *s, size_t n) {
  int b = bits_of(c);
  size_t total = n * 8, digits = (total + b - 1) / b, i, q = b == 5 ? 8 : 4;
  int k;
  for (i = 0; i < digits; i++) {
    unsigned v = 0;
    for (k = 0; k < b; k++) {
      size_t p = i * b + k;
      unsigned bit = 0;
      if (p < total) {
        uint8_t byte = c == B16LE ? s[n - 1 - p / 8] : s[p / 8];
        bit = (byte >> (7 - p % 8)) & 1;
      }
      v = (v << 1) | bit;
    }
    d[i] = alpha(c)[v];
  }
  if (padded(c))
    while (i % q) d[i++] = '=';
  return i;
}

/* codec, n: any n bytes */
void h_round(void) {
  int c = sym_param("codec", B64);
  size_t n = sym_pick(0, sym_param("max", 11), "len"), size, el = 0, dl = 0, want;
  uint8_t *src = malloc(n ? n : 1), *out;
  char *str, ref[128];
  sym_bytes(src, n, "src");
  size = enc_size(c, n);
  want = ref_enc(c, ref, src, n);
  sym_assert(size == want, "announced size is the encoded size");
  str = malloc(size + 1);
  enc(c, str, &el, src, n);
  sym_assert(el == want, "encoded length");
  sym_assert_eq(str, ref, want, "encoded text");
  sym_assert(str[el] == 0, "terminated");
  sym_assert(test(c, str, el) == 1, "own encoding passes the test");
  size = dec_size(c, str, el);
  sym_assert(size == n, "announced decoded size");
  out = malloc(size ? size : 1);
  sym_assert(dec(c, out, &dl, str, el) == 1, "own encoding decodes");
  sym_assert(dl == n, "decoded length");
  sym_assert_eq(out, src, n, "round trip");
}

/* codec: any string of length 0..max */
void h_any(void) {
  int c = sym_param("codec", B64);
  size_t n = sym_pick(sym_param("min", 0), sym_param("max", 9), "len"), size, el = 0, dl = 0, i;
  char *s = malloc(n ? n : 1), *re;
  uint8_t *out;
  int r, t;
  sym_bytes(s, n, "text");
  size = sym_concretize(dec_size(c, s, n));
  out = malloc(size ? size : 1);
  r = dec(c, out, &dl, s, n);
  t = test(c, s, n);
  sym_assert(r == 0 || r == 1, "decoder result is 0 or 1");
  sym_assert(r == t, "test agrees with decode");
  if (!r) { sym_reach("rejected"); return; }
  sym_reach("accepted");
  dl = sym_concretize(dl);
  sym_assert(dl <= size, "decoded within the announced size");
  re = malloc(c == B58 ? 2 * dl + 2 : enc_size(c, dl) + 1);
  enc(c, re, &el, out, dl);
  sym_assert(el == n, "re-encoded length");
  for (i = 0; i < n; i++) {
    uint8_t ch = s[i];
    if (folds(c)) ch = (ch >= 'A' && ch <= 'Z') ? ch + 32 : ch;
    sym_assert((uint8_t)re[i] == ch, "accepted text is canonical");
  }
}

static uint8_t rev58[256];
static void rev_init(void) {
  int i;
  memset(rev58, 255, 256);
  for (i = 0; i < 58; i++) rev58[(uint8_t)alpha(B58)[i]] = i;
}

/* base58 against long division, and back */
void h_b58_round(void) {
  size_t n = sym_pick(sym_param("min", 0), sym_param("max", 4), "len"), el = 0, dl = 0, i, z = 0, k;
  uint8_t *src = malloc(n ? n : 1), *out = malloc(n ? n : 1);
  char *str;
  rev_init();
  sym_bytes(src, n, "src");
  for (i = 0; i < n; i++) /* bytes outside the mask are fixed */
    if (!((sym_param("mask", 255) >> i) & 1)) src[i] = sym_param("fill", 0) ? (uint8_t)(0x5b * (i + 1)) : 0;
  while (z < n && src[z] == 0) z++;
  k = n - z;
  str = malloc(BASE58_ENCODE_SIZE(n) + 1);
  sym_assert(base58_encode(str, &el, src, n) == 1, "encodes");
  el = sym_concretize(el);
  sym_assert(str[el] == 0, "terminated");
  sym_assert(el >= z, "leading zeros kept");
  for (i = 0; i < z && i < el; i++) sym_assert(str[i] == '1', "leading zeros kept");
  sym_assert(k == 0 ? el == z : el > z && str[z] != '1', "no extra leading digits");
  { /* value of the digits = value of the bytes */
    uint64_t v = 0, w = 0;
    for (i = z; i < n; i++) v = (v << 8) | src[i];
    for (i = z; i < el; i++) {
      unsigned dig = rev58[(uint8_t)str[i]];
      sym_assert(dig < 58, "digit in the alphabet");
      w = w * 58 + dig;
    }
    sym_assert(v == w, "value kept");
  }
  sym_assert(base58_test(str, el) == 1, "own encoding passes the test");
  {
    uint8_t *o = malloc(el ? el : 1);
    sym_assert(base58_decode(o, &dl, str, el) == 1, "own encoding decodes");
    sym_assert(dl == n, "decoded length");
    sym_assert_eq(o, src, n, "round trip");
  }
  (void)out;
}

void h_b58_any(void) {
  size_t n = sym_pick(sym_param("min", 0), sym_param("max", 4), "len"), el = 0, dl = 0, i;
  char *s = malloc(n ? n : 1), *re;
  uint8_t *out = malloc(n ? n : 1);
  int r, ok = 1;
  rev_init();
  sym_bytes(s, n, "text");
  for (i = 0; i < n; i++) {
    ok &= rev58[(uint8_t)s[i]] < 58;
  }
  r = base58_decode(out, &dl, s, n);
  sym_assert(r == ok, "decodes exactly the strings over the alphabet");
  sym_assert(base58_test(s, n) == ok, "test agrees with decode");
  if (!r) { sym_reach("rejected"); return; }
  dl = sym_concretize(dl);
  sym_assert(dl <= n, "decoded size");
  {
    uint64_t v = 0, w = 0;
    for (i = 0; i < n; i++) {
      v = v * 58 + rev58[(uint8_t)s[i]];
    }
    for (i = 0; i < dl; i++) w = (w << 8) | out[i];
    sym_assert(v == w, "value kept");
  }
  if (sym_param("re", 1)) {
    re = malloc(2 * dl + 2);
    sym_assert(base58_encode(re, &el, out, dl) == 1, "re-encodes");
    sym_assert(el == n, "re-encoded length");
    sym_assert_eq(re, s, n, "accepted text is canonical");
  }
}

/* longest possible digit strings: all bytes 0xff (all digits 57) except a
   symbolic last one, at every length: the work buffers are always long
   enough (the internal overflow assertion never fires, no access leaves the
   buffers) and the lengths are those of the values 256^n-1 and 58^n-1 */
void h_b58_long(void) {
  size_t n = sym_pick(sym_param("lo", 1), sym_param("hi", 64), "len"), el = 0, dl = 0;
  uint8_t *src = malloc(n), *out = malloc(n);
  char *str = malloc(BASE58_ENCODE_SIZE(n) + 1), *top = malloc(n);
  memset(src, 0xff, n);
  sym_bytes(src + n - 1, 1, "last");
  sym_assert(base58_encode(str, &el, src, n) == 1, "encodes");
  /* digits d with 58^(d-1) <= 256^n - 256 < 58^d */
  sym_assert(n < 2 || (el * 5858 >= n * 8000 && (el - 1) * 5857 <= n * 8000), "encoded length");
  memset(top, 'z', n);
  top[n - 1] = alpha(B58)[sym_u8("digit") % 58];
  sym_assert(base58_decode(out, &dl, top, n) == 1, "decodes");
  sym_assert(dl * 8000 >= n * 5857 - (n > 1 ? 0 : 5857) && (dl - 1) * 8000 <= n * 5858, "decoded length");
}
