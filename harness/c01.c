#include "v.h"
#include <string.h>
#include "voucher/serialize.h"
#ifndef NMIN
#define NMIN 0
#endif
#ifndef NMAX
#define NMAX 12
#endif
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static uint8_t *mk(size_t n) {
#ifdef LONG /* any bytes at three places, the others fixed */
  uint8_t *s = (uint8_t *)u_malloc(n);
  for (size_t i = 0; i < n; i++) s[i] = (uint8_t)(i * 37 + (i >> 5) + (i >> 8));
  size_t at = nd_pick(0, 2) * (n - 3) / 2;
  for (size_t i = at; i < at + 3; i++) s[i] = nd_u8();
  return s;
#else
  return nd_buf(n);
#endif
}
static void encode(size_t n) {
  size_t want = (n + 2) / 3 * 4;
  uint8_t *src = mk(n);
  uint8_t *txt = NULL;
  ssize_t tl = serialize_array2base64str(src, n, &txt);
  VASSERT(tl >= 0 && txt != NULL, "encoding a byte string succeeds");
  VASSERT((size_t)tl == want, "encoded length is 4*ceil(n/3)");
  VASSERT(txt[want] == 0, "encoded text is NUL-terminated at the reported length");
  VASSERT(v_live == 1, "exactly the text is allocated");
  for (size_t g = 0; 3 * g < n; g++) {
    uint32_t b0 = src[3 * g], b1 = 3 * g + 1 < n ? src[3 * g + 1] : 0, b2 = 3 * g + 2 < n ? src[3 * g + 2] : 0;
    uint32_t w = b0 << 16 | b1 << 8 | b2;
    VASSERT(txt[4 * g] == AL[w >> 18 & 63], "first character of a group");
    VASSERT(txt[4 * g + 1] == AL[w >> 12 & 63], "second character of a group");
    VASSERT(txt[4 * g + 2] == (3 * g + 1 < n ? AL[w >> 6 & 63] : '='), "third character of a group");
    VASSERT(txt[4 * g + 3] == (3 * g + 2 < n ? AL[w & 63] : '='), "fourth character of a group");
  }
  v_free(txt);
  VASSERT(v_live == 0, "nothing else is allocated");
  u_free(src);
}
/* every length from NMIN to NMAX, every content */
void h_encode(void) {
  for (size_t n = NMIN; n <= NMAX; n++) encode(n);
  VWITNESS("all lengths encoded");
}

static void roundtrip(size_t n) {
  size_t want = (n + 2) / 3 * 4;
  uint8_t *src = mk(n);
  uint8_t *txt = NULL, *back = NULL;
  ssize_t tl = serialize_array2base64str(src, n, &txt);
  VASSERT(tl >= 0 && (size_t)tl == want, "encoding succeeds");
  ssize_t bl = serialize_base64str2array(txt, want, &back);
  VASSERT(bl >= 0 && (size_t)bl == n, "decoded length equals original length");
  VASSERT(back != NULL, "decoding gives a buffer");
  for (size_t i = 0; i < n; i++) VASSERT(back[i] == src[i], "decoded byte equals original byte");
  v_free(back);
  v_free(txt);
  VASSERT(v_live == 0, "nothing else is allocated");
  u_free(src);
}
void h_roundtrip(void) {
  for (size_t n = NMIN ? NMIN : 1; n <= NMAX; n++) roundtrip(n);
  VWITNESS("all lengths decoded");
}

static const size_t SIZES[] = {54, 72, 128, 216, 768, 1000, 3072, 4095, 4096, 4097, 8192, 12289};
#define NS (sizeof SIZES / sizeof SIZES[0])
void h_encode_long(void) { encode(SIZES[nd_pick(0, NS - 1)]); VWITNESS("encoded"); }
void h_roundtrip_long(void) { roundtrip(SIZES[nd_pick(0, 4)]); VWITNESS("decoded"); }
