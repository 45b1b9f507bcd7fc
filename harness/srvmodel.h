/* C27-C30, C32: contracts of the operations the request handlers use. Each request under test has its own expectations (struct req);
 * the stand-ins check what they are asked against the request that is being served. */
#ifndef SRVMODEL_H
#define SRVMODEL_H
#include <string>
#include <cstring>
#include <ctime>
#include "v.h"
#include "brski/http/http.hpp"
#include "brski/http/https_client.hpp"
extern "C" {
#include "voucher/array.h"
#include "voucher/keyvalue.h"
#include "voucher/crypto.h"
#include "voucher/serialize.h"
#include "voucher/voucher.h"
#include "brski/config.h"
}
#define VIS extern "C"
struct quiet { int n, at; };
static struct quiet q_on(void) { struct quiet q = {v_alloc_n, v_oom_at}; v_oom_at = 0; return q; }
static void q_off(struct quiet q) { v_alloc_n = q.n; v_oom_at = q.at; }
static bool same(const struct BinaryArray *a, const struct BinaryArray *b) { return a && a->length == b->length && (a->length == 0 || memcmp(a->array, b->array, a->length) == 0); }
static struct BinaryArray nd_arr(size_t n) { struct BinaryArray a; a.array = nd_buf(n); a.length = n; return a; }
static char *tpl(const char *t) {
  size_t n = strlen(t);
  char *s = (char *)u_malloc(n + 1);
  for (size_t i = 0; i <= n; i++) { s[i] = t[i]; if (t[i] == '?') { s[i] = nd_char(); VASSUME(s[i] != 0); } }
  return s;
}
/* a caller-owned copy (counted) */
static bool copy_failed;
static uint8_t *copy_bytes(const struct BinaryArray *a) {
  uint8_t *p = (uint8_t *)v_malloc(a->length ? a->length : 1);
  if (p == NULL) { copy_failed = true; return NULL; }
  if (a->length) memcpy(p, a->array, a->length);
  return p;
}
static struct BinaryArray *copy(const struct BinaryArray *a) {
  struct BinaryArray *r = (struct BinaryArray *)v_malloc(sizeof *r);
  if (r == NULL) { copy_failed = true; return NULL; }
  if ((r->array = copy_bytes(a)) == NULL) { v_free(r); return NULL; }
  r->length = a->length;
  return r;
}
/* the text that encodes these bytes, and the bytes of a text (harness's own, not counted) */
static const char *enc(const struct BinaryArray *a) {
  struct quiet q = q_on();
  int live = v_live;
  uint8_t *t = NULL;
  if (serialize_array2base64str(a->array, a->length, &t) < 0) t = NULL;
  v_live = live;
  q_off(q);
  return (const char *)t;
}
static bool dec(const char *t, struct BinaryArray *a) {
  struct quiet q = q_on();
  int live = v_live;
  a->array = NULL; a->length = 0;
  ssize_t l = serialize_base64str2array((const uint8_t *)t, strlen(t), &a->array);
  if (l >= 0) a->length = (size_t)l;
  v_live = live;
  q_off(q);
  return l >= 0;
}
#endif
