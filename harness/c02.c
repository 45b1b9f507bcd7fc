/* C02: base64 decoding of arbitrary bytes against an independently written reference.
 * NMIN..NMAX: number of given bytes. */
#include "v.h"
#include <string.h>
#include "voucher/serialize.h"
#ifdef LONG /* without branches */
static int val(uint8_t c) {
  int v = -1;
  v = ((c >= 'A') & (c <= 'Z')) ? c - 'A' : v;
  v = ((c >= 'a') & (c <= 'z')) ? c - 'a' + 26 : v;
  v = ((c >= '0') & (c <= '9')) ? c - '0' + 52 : v;
  v = c == '+' ? 62 : v;
  v = c == '/' ? 63 : v;
  v = c == '=' ? 64 : v;
  return v;
}
#else
static int val(uint8_t c) {
  if (c >= 'A' && c <= 'Z') return c - 'A';
  if (c >= 'a' && c <= 'z') return c - 'a' + 26;
  if (c >= '0' && c <= '9') return c - '0' + 52;
  if (c == '+') return 62;
  if (c == '/') return 63;
  if (c == '=') return 64;
  return -1;
}
#endif
static uint8_t *mk(size_t n) {
#ifdef LONG /* lines of 64 characters; any bytes at two places next to each other */
  static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  uint8_t *s = (uint8_t *)u_malloc(n);
  for (size_t i = 0; i < n; i++) s[i] = i % 65 == 64 ? '\n' : (uint8_t)AL[(i * 37 + (i >> 5)) & 63];
  size_t at[] = {0, 63, n / 2, n - 4, n - 2};
  size_t k = at[nd_pick(0, 4)];
  for (size_t i = k; i < k + 2; i++) s[i] = nd_u8();
  return s;
#else
  return nd_buf(n);
#endif
}
static void one(size_t n) {
  uint8_t *src = mk(n);
  /* reference */
  uint8_t sym[NMAX + 4], want[(NMAX + 4) / 4 * 3 + 3];
  size_t k = 0, w = 0;
  for (size_t i = 0; i < n; i++) { int v = val(src[i]); if (v >= 0) { sym[k] = (uint8_t)v; k++; } }
  bool reject = k == 0;
  size_t used = k;
  while (used % 4) { sym[used] = 64; used++; }
  bool stop = false;
  for (size_t g = 0; g < (NMAX + 3) / 4; g++) {
    if (4 * g < used && !stop) {
      uint32_t bits = 0; int pad = 0;
      for (size_t j = 0; j < 4; j++) {
        uint8_t s = sym[4 * g + j];
        bits = bits << 6 | (s == 64 ? 0u : s);
        if (s == 64) pad++;
      }
      if (pad >= 3) reject = true;
      if (pad) stop = true;
      if (pad < 3) { want[w] = (uint8_t)(bits >> 16); w++; }
      if (pad < 2) { want[w] = (uint8_t)(bits >> 8); w++; }
      if (pad < 1) { want[w] = (uint8_t)bits; w++; }
    }
  }
#ifdef STALE
  uint8_t *out = src;
#else
  uint8_t *out = NULL;
#endif
  v_oom_at = 0;
  ssize_t l = serialize_base64str2array(src, n, &out);
  if (reject) {
    VASSERT(l < 0, "text without a complete group, or over-padded, is rejected");
    VASSERT(out == NULL, "a rejected text hands out no buffer");
    VASSERT(v_live == 0, "a rejected text leaves nothing allocated");
#if NMAX >= 4
    VWITNESS("rejected");
#endif
  } else {
    VASSERT(l >= 0 && (size_t)l == w, "decoded length");
    VASSERT(out != NULL, "decoding hands out a buffer");
    VASSERT(v_live == 1, "exactly the result is allocated");
    for (size_t i = 0; i < w; i++) VASSERT(out[i] == want[i], "decoded byte");
    v_free(out);
    VASSERT(v_live == 0, "the result is the only allocation");
#if NMAX >= 4
    VWITNESS("decoded");
#endif
  }
  u_free(src);
}
void h_decode(void) {
  for (size_t n = NMIN; n <= NMAX; n++) one(n);
  VWITNESS("all lengths");
}
/* failing allocation: error, no buffer */
void h_decode_oom(void) {
  uint8_t *src = nd_buf(NMAX), *out = src;
  v_oom_at = 1;
  ssize_t l = serialize_base64str2array(src, NMAX, &out);
  VASSERT(l < 0 && out == NULL, "no memory gives an error and no buffer");
  VASSERT(v_live == 0, "nothing allocated");
  out = src;
  v_alloc_n = 0;
  l = serialize_array2base64str(src, NMAX, &out);
  VASSERT(l < 0 && out == NULL, "encoding without memory gives an error and no buffer");
  u_free(src);
  VWITNESS("out of memory");
}

#ifdef LONG
static const size_t SIZES[] = {129, 130, 257, 1000, NMAX};
void h_decode_long(void) { one(SIZES[nd_pick(0, NL)]); }
#endif
