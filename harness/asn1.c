/* DER reader and writer against a reference written from X.690: definite
   minimal lengths, minimal non-negative integers. Input buffers have exactly
   the announced size, so any read past the end is reported. */
#include <stdlib.h>
#include <string.h>
#include "sym.h"
#include <torsion/mpi.h>
#include "asn1.h"
#include "internal.h"

/* header length and value of a minimal definite length; 0 when invalid */
static size_t ref_len(const uint8_t *p, size_t n, uint64_t *v) {
  size_t k, i;
  *v = 0;
  if (n == 0) return 0;
  if (p[0] < 0x80) { *v = p[0]; return 1; }
  k = p[0] & 0x7f;
  if (k == 0 || k > n - 1) return 0;
  if (p[1] == 0) return 0;
  if (k > 4) return 0;
  for (i = 0; i < k; i++) *v = (*v << 8) | p[1 + i];
  if (*v < 0x80) return 0;
  return 1 + k;
}

/* total size of a strict integer at p (tag included), value offset/size */
static size_t ref_int(const uint8_t *p, size_t n, size_t *off, size_t *size) {
  uint64_t v;
  size_t h;
  if (n == 0 || p[0] != 2) return 0;
  h = ref_len(p + 1, n - 1, &v);
  if (h == 0 || v > n - 1 - h || v == 0) return 0;
  *off = 1 + h;
  *size = v;
  if (p[*off] & 0x80) return 0;
  if (v > 1 && p[*off] == 0 && !(p[*off + 1] & 0x80)) return 0;
  return 1 + h + v;
}

/* strict length */
void h_size(void) {
  size_t n = sym_pick(0, sym_param("max", 7), "len"), left, size = 77, h;
  uint8_t *b = malloc(n ? n : 1);
  const unsigned char *p = b;
  uint64_t v;
  int r;
  sym_bytes(b, n, "der");
  left = n;
  r = asn1_read_size(&size, &p, &left, 1);
  h = ref_len(b, n, &v);
  sym_assert(r == (h != 0), "accepts exactly minimal definite lengths");
  if (!r) return;
  sym_assert(size == v, "length value");
  sym_assert(left == n - h && p == b + h, "consumes exactly the length");
}

void h_seq(void) {
  size_t n = sym_pick(0, sym_param("max", 7), "len"), left, h = 0;
  uint8_t *b = malloc(n ? n : 1);
  const unsigned char *p = b;
  uint64_t v = 0;
  int r, ok;
  sym_bytes(b, n, "der");
  left = n;
  r = asn1_read_seq(&p, &left, 1);
  ok = n > 0 && b[0] == 0x30;
  if (ok) { h = ref_len(b + 1, n - 1, &v); ok = h != 0 && v == n - 1 - h; }
  sym_assert(r == ok, "accepts exactly a sequence covering the input");
  if (!r) return;
  sym_assert(left == n - 1 - h && p == b + 1 + h, "consumes exactly the header");
}

/* strict integers, fixed width output and big integer output */
void h_int(void) {
  size_t n = sym_pick(sym_param("min", 0), sym_param("max", 6), "len"), w = sym_param("width", 4), left, off = 0, size = 0, t, i, z;
  uint8_t *b = malloc(n ? n : 1), *out = malloc(w), *back;
  const unsigned char *p = b;
  int r, ok;
  sym_bytes(b, n, "der");
  t = ref_int(b, n, &off, &size);
  left = n;
  if (sym_param("mpz", 0)) {
    mpz_t x;
    mpz_init(x);
    r = asn1_read_mpz(x, &p, &left, 1);
    sym_assert(r == (t != 0), "accepts exactly minimal non-negative integers");
    if (!r) { sym_assert(mpz_sgn(x) == 0, "zero on failure"); return; }
    t = sym_concretize(t); off = sym_concretize(off); size = sym_concretize(size);
    sym_assert(left == n - t && p == b + t, "consumes exactly the integer");
    back = malloc(size);
    mpz_export(back, x, size, 1);
    sym_assert_eq(back, b + off, size, "value");
    sym_assert(asn1_size_mpz(x) == t, "announced size");
    back = malloc(t);
    sym_assert(asn1_write_mpz(back, 0, x) == t, "written size");
    sym_assert_eq(back, b, t, "writes the same bytes back");
    mpz_clear(x);
    return;
  }
  r = asn1_read_int(out, w, &p, &left, 1);
  ok = t != 0;
  if (ok) { z = b[off] == 0; ok = size - z <= w; }
  sym_assert(r == ok, "accepts exactly minimal non-negative integers that fit");
  if (!r) { for (i = 0; i < w; i++) sym_assert(out[i] == 0, "zero on failure"); return; }
  t = sym_concretize(t); off = sym_concretize(off); size = sym_concretize(size);
  sym_assert(left == n - t && p == b + t, "consumes exactly the integer");
  for (i = 0; i < w; i++)
    sym_assert(out[w - 1 - i] == (i < size ? b[off + size - 1 - i] : 0), "value");
  sym_assert(asn1_size_int(out, w) == t, "announced size");
  back = malloc(t);
  sym_assert(asn1_write_int(back, 0, out, w) == t, "written size");
  sym_assert_eq(back, b, t, "writes the same bytes back");
}

/* lax reading of arbitrary input: stays in bounds, consumption consistent */
void h_lax(void) {
  size_t n = sym_pick(0, sym_param("max", 5), "len"), w = 4, left, size, i;
  uint8_t *b = malloc(n ? n : 1), *out = malloc(w);
  const unsigned char *p = b;
  int r = 0;
  mpz_t x;
  sym_bytes(b, n, "der");
  left = n;
  mpz_init(x);
  switch (sym_param("what", 0)) {
    case 0: r = asn1_read_size(&size, &p, &left, 0); break;
    case 1: r = asn1_read_seq(&p, &left, 0); break;
    case 2: r = asn1_read_int(out, w, &p, &left, 0); break;
    case 3: r = asn1_read_mpz(x, &p, &left, 0); break;
    case 4: r = asn1_read_version(&p, &left, 1, 0); break;
    case 5:
      r = asn1_read_version(&p, &left, 1, 1);
      sym_assert(r == (n >= 3 && b[0] == 2 && b[1] == 1 && b[2] == 1), "strict version");
      sym_assert(!r || left == n - 3, "consumes exactly the version");
      break;
    case 6:
      r = asn1_read_dumb(x, &p, &left);
      if (r) {
        uint8_t e[8];
        size = ((size_t)b[0] << 8) | b[1];
        size = sym_concretize(size);
        sym_assert(size + 2 <= n && left == n - 2 - size, "consumes exactly the number");
        mpz_export(e, x, 8, 1);
        for (i = 0; i < 8; i++) sym_assert(e[7 - i] == (i < size ? b[2 + size - 1 - i] : 0), "value");
      } else {
        sym_assert(n < 2 || (((size_t)b[0] << 8) | b[1]) + 2 > n, "rejects only short input");
      }
      break;
  }
  sym_assert(r == 0 || r == 1, "result is 0 or 1");
  sym_assert(left <= n, "remaining length");
  sym_assert(p == b + (n - left), "position and remaining length agree");
  mpz_clear(x);
}

/* any integer written reads back */
void h_write(void) {
  size_t n = sym_pick(0, sym_param("max", 6), "len"), size, left, i;
  uint8_t *num = malloc(n ? n : 1), *b, *out = malloc(n ? n : 1);
  const unsigned char *p;
  mpz_t x, y;
  sym_bytes(num, n, "number");
  if (sym_param("mpz", 0)) {
    mpz_init(x); mpz_init(y);
    mpz_import(x, num, n, 1);
    size = sym_concretize(asn1_size_mpz(x));
    b = malloc(size);
    sym_assert(asn1_write_mpz(b, 0, x) == size, "written size");
    p = b; left = size;
    sym_assert(asn1_read_mpz(y, &p, &left, 1) == 1, "own encoding is accepted");
    sym_assert(left == 0, "own encoding is consumed");
    sym_assert(mpz_cmp(x, y) == 0, "value");
    mpz_clear(x); mpz_clear(y);
    return;
  }
  size = sym_concretize(asn1_size_int(num, n));
  b = malloc(size);
  sym_assert(asn1_write_int(b, 0, num, n) == size, "written size");
  p = b; left = size;
  sym_assert(asn1_read_int(out, n, &p, &left, 1) == 1, "own encoding is accepted");
  sym_assert(left == 0, "own encoding is consumed");
  for (i = 0; i < n; i++) sym_assert(out[i] == num[i], "value");
}

/* integers of sizes around the length-form boundaries, two leading bytes symbolic */
void h_write_big(void) {
  static const size_t szs[] = { 126, 127, 128, 129, 254, 255, 256, 257, 300 };
  size_t n = szs[sym_pick(0, 8, "size index")], size, left, i;
  uint8_t *num = malloc(n), *b, *out = malloc(n);
  const unsigned char *p;
  for (i = 0; i < n; i++) num[i] = (uint8_t)(i * 3 + 1);
  sym_bytes(num, 1, "top");
  size = sym_concretize(asn1_size_int(num, n));
  b = malloc(size);
  sym_assert(asn1_write_int(b, 0, num, n) == size, "written size");
  p = b; left = size;
  sym_assert(asn1_read_int(out, n, &p, &left, 1) == 1, "own encoding is accepted");
  sym_assert(left == 0, "own encoding is consumed");
  sym_assert_eq(out, num, n, "value");
}

/* every length below 65536: announced, written and read back */
void h_write_size(void) {
  uint16_t v = sym_u16("size");
  size_t size = sym_concretize(asn1_size_size(v)), left, got = 0;
  uint8_t *b = malloc(size);
  const unsigned char *p = b;
  sym_assert(asn1_write_size(b, 0, v) == size, "written size");
  left = size;
  sym_assert(asn1_read_size(&got, &p, &left, 1) == 1 && got == v && left == 0, "length reads back");
  b = malloc(1 + size);
  sym_assert(asn1_write_seq(b, 0, v) == 1 + size && b[0] == 0x30, "sequence header");
}

void h_write_misc(void) {
  uint8_t b[16], num[6];
  const unsigned char *p = b;
  size_t left, n = sym_pick(0, 6, "len"), w;
  unsigned v = sym_u8("version");
  mpz_t x, y;
  sym_assume(v < 128);
  sym_assert(asn1_size_version(v) == 3 && asn1_write_version(b, 0, v) == 3, "version size");
  left = 3;
  sym_assert(asn1_read_version(&p, &left, v, 1) == 1 && left == 0, "version reads back");
  p = b; left = 3;
  sym_assert(asn1_read_version(&p, &left, v, 0) == 1 && left == 0, "version reads back lax");
  mpz_init(x); mpz_init(y);
  sym_bytes(num, n, "number");
  mpz_import(x, num, n, 1);
  w = sym_concretize(asn1_write_dumb(b, 0, x));
  p = b; left = w;
  sym_assert(asn1_read_dumb(y, &p, &left) == 1 && left == 0, "number reads back");
  sym_assert(mpz_cmp(x, y) == 0, "value");
}
