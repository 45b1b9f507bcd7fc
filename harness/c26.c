/* C26: the pledge's own request */
#include <string.h>
#include <time.h>
#include "v.h"
#include "voucher/array.h"
#include "voucher/crypto.h"
#include "voucher/serialize.h"
#include "voucher/voucher.h"
#include "brski/config.h"
#include "brski/pledge/pledge_config.h"
#include "brski/pledge/pledge_utils.h"
struct quiet { int n, at; };
static struct quiet q_on(void) { struct quiet q = {v_alloc_n, v_oom_at}; v_oom_at = 0; return q; }
static void q_off(struct quiet q) { v_alloc_n = q.n; v_oom_at = q.at; }
static struct pledge_config P;
static struct BinaryArray TLS, CERT, KEY, NONCE, CMS;
static struct tm NOW, WANT;
static int add_k = -1;                        /* additional certificates: none (-1) or how many */
static uint8_t *add_b;
static struct BinaryArrayList *PATHS;
static bool nonce_ok = true, time_ok = true;
static int step_n, fail_at, signed_n, wrote_n;
static bool failed;
static bool step(void) { if (++step_n == fail_at) { failed = true; return true; } return false; }
static bool same(const struct BinaryArray *a, const struct BinaryArray *b) { return a && a->length == b->length && (a->length == 0 || memcmp(a->array, b->array, a->length) == 0); }
static struct BinaryArray *copy(const struct BinaryArray *a) {
  struct BinaryArray *r = (struct BinaryArray *)v_malloc(sizeof *r);
  if (r == NULL) { failed = true; return NULL; }
  r->array = (uint8_t *)v_malloc(a->length ? a->length : 1);
  if (r->array == NULL) { v_free(r); failed = true; return NULL; }
  memcpy(r->array, a->array, a->length);
  r->length = a->length;
  return r;
}
int get_localtime(struct tm *c) {
  VASSERT(c != NULL, "a place for the time");
  VASSERT(P.created_on == NULL, "the current time is used only without a configured one");
  if (step()) return -1;
  *c = NOW;
  return 0;
}
struct BinaryArray *file_to_x509buf(const char *f) {
  if (f == NULL) { failed = true; return NULL; }
  VASSERT(strcmp(f, "sign.crt") == 0, "the configured certificate file is read");
  return step() ? NULL : copy(&CERT);
}
struct BinaryArray *file_to_keybuf(const char *f) {
  if (f == NULL) { failed = true; return NULL; }
  VASSERT(strcmp(f, "sign.key") == 0, "the configured key file is read");
  return step() ? NULL : copy(&KEY);
}
int load_cert_files(struct BinaryArrayList *paths, struct BinaryArrayList **out) {
  VASSERT(paths == PATHS, "the configured additional certificate files are read");
  *out = NULL;
  if (step()) return -1;
  if (add_k <= 0) return 0;
  int live = v_live;
  struct BinaryArrayList *l = init_array_list();
  for (int i = 0; l && i < add_k; i++) if (push_array_list(l, add_b + i, 1, 0) < 0) { free_array_list(l); l = NULL; }
  if (l == NULL) { VASSERT(v_live == live, "harness"); failed = true; return -1; }
  *out = l;
  return 0;
}
struct BinaryArray *sign_pledge_voucher_request(const struct tm *t, const char *serial, const struct BinaryArray *nonce, const struct BinaryArray *tls, const struct BinaryArray *cert,
                                                const struct BinaryArray *key, const struct BinaryArrayList *add) {
  VASSERT(!failed && nonce_ok && time_ok, "nothing is signed after a failure");
  VASSERT(t != NULL && t->tm_year == WANT.tm_year && t->tm_mon == WANT.tm_mon && t->tm_mday == WANT.tm_mday && t->tm_hour == WANT.tm_hour && t->tm_min == WANT.tm_min && t->tm_sec == WANT.tm_sec,
          "the creation time is the configured one, or the current time");
  VASSERT(P.serial_number == NULL ? serial == NULL : serial != NULL && strcmp(serial, P.serial_number) == 0, "the serial number is the configured one");
  VASSERT(P.nonce == NULL ? nonce == NULL : same(nonce, &NONCE), "the nonce is the configured one");
  VASSERT(same(tls, &TLS), "the registrar certificate is the given one");
  VASSERT(same(cert, &CERT) && same(key, &KEY), "the certificate and key are the configured ones");
  int n = 0;
  if (add != NULL) for (const struct dl_list *p = add->list.next; p != &add->list; p = p->next, n++) {
    const struct BinaryArrayList *e = dl_list_entry(p, struct BinaryArrayList, list);
    VASSERT(n < add_k && e->length == 1 && e->arr[0] == add_b[n], "the additional certificates are the configured ones");
  }
  VASSERT(n == (add_k < 0 ? 0 : add_k), "all additional certificates are there");
  signed_n++;
  if (serial == NULL) { failed = true; return NULL; }
  return step() ? NULL : copy(&CMS);
}
int cmsbuf_to_file(const struct BinaryArray *c, const char *f) {
  VASSERT(same(c, &CMS) && signed_n == 1, "exactly the signed request is written");
  VASSERT(strcmp(f, "out.cms") == 0, "it is written to the given file");
  wrote_n++;
  return step() ? -1 : 0;
}
static struct BinaryArray nd_arr(size_t n) { struct BinaryArray a = {nd_buf(n), n}; return a; }
/* template of 20 characters, '?' arbitrary */
static char *tpl(const char *t) {
  size_t n = strlen(t);
  char *s = (char *)u_malloc(n + 1);
  for (size_t i = 0; i <= n; i++) { s[i] = t[i]; if (t[i] == '?') { s[i] = nd_char(); VASSUME(s[i] != 0); } }
  return s;
}
static void make(void) {
  TLS = nd_arr(2); CERT = nd_arr(1); KEY = nd_arr(1);
  size_t k = nd_pick(0, CMSMAX);
  CMS = nd_arr(k);
  NOW.tm_year = nd_int(); NOW.tm_mon = nd_int(); NOW.tm_mday = nd_int(); NOW.tm_hour = nd_int(); NOW.tm_min = nd_int(); NOW.tm_sec = nd_int();
  static const char *const times[] = {NULL, "20??-12-31T23:59:5?Z", "1999-0?-2?T0?:5?:00Z", "2023-01-02T03:04", "", "????-01-02T03:04:05Z"};
  static const char *const nonces[] = {NULL, "??==", "????", "", "="};
  size_t ti = nd_pick(0, NTIME), ni = nd_pick(0, NNONCE), miss = nd_pick(0, NMISS);
  P.created_on = times[ti] ? tpl(times[ti]) : NULL;
  P.nonce = nonces[ni] ? tpl(nonces[ni]) : NULL;
  P.serial_number = miss == 1 ? NULL : nd_text(2);
  P.cms_sign_cert_path = miss == 2 ? NULL : "sign.crt";
  P.cms_sign_key_path = miss == 3 ? NULL : "sign.key";
  add_k = (int)nd_pick(0, 3) - 1;
  static struct BinaryArrayList paths;
  PATHS = P.cms_add_certs_paths = add_k < 0 ? NULL : &paths;
  if (add_k > 0) add_b = nd_buf((size_t)add_k);
  struct quiet q = q_on();
  int live = v_live;
  WANT = NOW;
  if (P.created_on) { memset(&WANT, 0, sizeof WANT); time_ok = serialize_str2time(P.created_on, &WANT) >= 0; }
  if (P.nonce) {
    ssize_t l = serialize_base64str2array((const uint8_t *)P.nonce, strlen(P.nonce), &NONCE.array);
    nonce_ok = l >= 0;
    NONCE.length = l < 0 ? 0 : (size_t)l;
  }
  v_live = live;
  q_off(q);
}
static void done(bool good) {
  if (good) { VASSERT(!failed && nonce_ok && time_ok && !v_oom_hit && signed_n == 1, "a request is given only when every step succeeded"); VWITNESS("request"); }
  else { VASSERT(failed || !nonce_ok || !time_ok || v_oom_hit, "a request is given when every step succeeded"); VWITNESS("failed"); }
}
static void run(void) {
  make();
#ifdef STEP
  fail_at = (int)nd_range(1, 7);
#endif
#ifdef OOM
  v_oom_at = (int)nd_range(1, 22);
#endif
  switch (nd_pick(1, 2)) {
    case 1: {
      int r = voucher_pledge_request_to_smimefile(&P, &TLS, "out.cms");
      VASSERT((r == 0) || r < 0, "the result is reported");
      done(r == 0);
      VASSERT(r != 0 || wrote_n == 1, "the request is written");
      break;
    }
    default: {
      char *r = voucher_pledge_request_to_base64(&P, &TLS);
      VASSUME(CMS.length > 0 || r == NULL || *r == 0);
      if (CMS.length == 0 && r == NULL) break;
      done(r != NULL);
      if (r) {
        struct quiet q = q_on();
        int live = v_live;
        uint8_t *w = NULL;
        VASSERT(serialize_array2base64str(CMS.array, CMS.length, &w) >= 0 && strcmp((char *)w, r) == 0, "the text is exactly the signed request");
        v_live = live;
        q_off(q);
      }
      v_free(r);
    }
  }
  VASSERT(v_live == 0, "everything is released exactly once");
}
void h_request(void) { run(); }
void h_null(void) {
  P.serial_number = "1"; P.cms_sign_cert_path = "sign.crt"; P.cms_sign_key_path = "sign.key";
  TLS = nd_arr(1);
  VASSERT(voucher_pledge_request_to_base64(NULL, &TLS) == NULL && voucher_pledge_request_to_base64(&P, NULL) == NULL, "missing arguments give no request");
  VASSERT(voucher_pledge_request_to_smimefile(NULL, &TLS, "out.cms") < 0 && voucher_pledge_request_to_smimefile(&P, NULL, "out.cms") < 0, "missing arguments are an error");
  VASSERT(wrote_n == 0 && signed_n == 0 && v_live == 0, "nothing is signed, written or allocated");
  VWITNESS("missing");
}
