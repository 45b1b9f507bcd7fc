// C27, C28: the registrar's request handlers
#include "srvmodel.h"
#include <cstdio>
#include <exception>
#include "brski/masa/masa_api.hpp"
#include "brski/masa/masa_config.h"
#include "brski/registrar/registrar_api.hpp"
#include "brski/registrar/registrar_config.h"
#ifndef CMSMAX
#define CMSMAX 1
#endif
#ifdef NEST
#define MAYBE 1
#else
#define MAYBE nd_bool()
#endif
static struct registrar_config RC;
static struct masa_config MC;
static struct RegistrarContext CTX;
static struct BinaryArrayList LP[3];                          // add, verify, store
static int LK[3];
static struct BinaryArray TLSC, SIGNC, SIGNK, CAC, CAK;
struct req {
  int peer_obj, masa_obj, new_obj, file_obj;
  bool body_ok;
  struct BinaryArray BODY, ISSUER, SIGNED;
  const char *BODYT, *serial, *nserial;
  struct tm NOW;
  uint64_t num1, num2;
  int step_n, fail_at, signed_n, posted_n, masa_live, new_live, files, getlog;
  bool failed, soft_failed, answered, enroll;
  std::string *answer;
};
static struct req RQ[2], *R = RQ;
#define peer_obj R->peer_obj
#define masa_obj R->masa_obj
#define new_obj R->new_obj
#define file_obj R->file_obj
#define body_ok R->body_ok
#define BODY R->BODY
#define ISSUER R->ISSUER
#define SIGNED R->SIGNED
#define BODYT R->BODYT
#define serial R->serial
#define nserial R->nserial
#define NOW R->NOW
#define num1 R->num1
#define num2 R->num2
#define step_n R->step_n
#define fail_at R->fail_at
#define signed_n R->signed_n
#define posted_n R->posted_n
#define masa_live R->masa_live
#define new_live R->new_live
#define files R->files
#define getlog R->getlog
#define failed R->failed
#define soft_failed R->soft_failed
#define answered R->answered
#define answer R->answer
#define PEER ((CRYPTO_CERT)&peer_obj)
#ifdef NEST
/* another request is served completely at any one of the points where this one calls something */
static int point_n, nest_at;
static bool nested;
static void other(void);
static void point(void) {
  if (nested || ++point_n != nest_at) return;
  nested = true;
  struct req *old = R;
  R = &RQ[1];
  other();
  R = old;
  VWITNESS("interleaved");
}
VIS void log_levels(uint8_t l, const char *f, uint32_t n, const char *m, ...) { point(); }
#else
static void point(void) {}
#endif
static bool step(void) { point(); if (++step_n == fail_at) { failed = true; return true; } return false; }
static struct BinaryArray *out(struct BinaryArray *r) { point(); return r; }
static bool soft(void) { point(); if (++step_n == fail_at) { soft_failed = true; return true; } return false; }

/* a text of n characters that repeats t */
static char *rep(size_t n, const char *t, size_t k) {
  char *s = (char *)u_malloc(n + 1);
  for (size_t i = 0; i < n; i++) s[i] = t[i % k];
  s[n] = 0;
  return s;
}
static int meta(struct crypto_cert_meta *m, const char *s, uint64_t num) {
  VASSERT(m != NULL && m->subject != NULL && m->issuer != NULL, "lists for the names are given");
  if (push_keyvalue_list(m->issuer, (char *)"serialNumber", (char *)"issuer") < 0 || push_keyvalue_list(m->subject, (char *)"CN", (char *)"cn") < 0) return -1;
  if (s != NULL && push_keyvalue_list(m->subject, (char *)"serialNumber", (char *)s) < 0) return -1;
  m->serial_number = num;
  return 0;
}
VIS int crypto_getcert_meta(CRYPTO_CERT c, struct crypto_cert_meta *m) {
  VASSERT(c == PEER || (c == (CRYPTO_CERT)&new_obj && new_live), "the certificate read is that of the TLS peer, or the new one");
  if (R->enroll) {
  if (soft()) return -1;
  int r = c == PEER ? meta(m, serial, num1) : meta(m, nserial, num2);
  if (r < 0) soft_failed = true;
  return r;
  }
  if (step()) return -1;
  int r = c == PEER ? meta(m, serial, num1) : meta(m, nserial, num2);
  if (r < 0) failed = true;
  return r;
}
VIS char *crypto_getcert_serial(struct crypto_cert_meta *m) {
  struct keyvalue_list *el;
  dl_list_for_each(el, &m->subject->list, struct keyvalue_list, list) if (strcmp(el->key, "serialNumber") == 0) return el->value;
  return NULL;
}
VIS struct BinaryArray *crypto_getcert_issuer(CRYPTO_CERT c) {
  VASSERT(c == PEER, "the issuer is that of the TLS peer");
  return step() ? NULL : out(copy(&ISSUER));
}
VIS CRYPTO_CERT crypto_cert2context(const uint8_t *p, size_t n) {
  struct BinaryArray a; a.array = (uint8_t *)p; a.length = n;
  VASSERT(signed_n == 1 && same(&a, &SIGNED), "the certificate read is the new one");
  if (soft()) return NULL;
  new_live++;
  return (CRYPTO_CERT)&new_obj;
}
VIS void crypto_free_certcontext(CRYPTO_CERT c) {
  if (c == NULL) return;
  if (c == (CRYPTO_CERT)&new_obj) { VASSERT(new_live == 1, "a certificate is released once"); new_live--; return; }
  VASSERT(c == (CRYPTO_CERT)&masa_obj && masa_live == 1, "a certificate is released once, and only an own one");
  masa_live--;
}
VIS struct BinaryArray *file_to_x509buf(const char *f) {
  if (f == NULL) { failed = true; return NULL; }
  const struct BinaryArray *a = strcmp(f, "tls.crt") == 0 ? &TLSC : strcmp(f, "sign.crt") == 0 ? &SIGNC : strcmp(f, "ca.crt") == 0 ? &CAC : NULL;
  VASSERT(a != NULL, "a configured certificate file is read");
  if (a == NULL) return NULL;
  return step() ? NULL : out(copy(a));
}
VIS struct BinaryArray *file_to_keybuf(const char *f) {
  if (f == NULL) { failed = true; return NULL; }
  const struct BinaryArray *a = strcmp(f, "sign.key") == 0 ? &SIGNK : strcmp(f, "ca.key") == 0 ? &CAK : NULL;
  VASSERT(a != NULL, "a configured key file is read");
  if (a == NULL) return NULL;
  return step() ? NULL : out(copy(a));
}
VIS int load_cert_files(struct BinaryArrayList *paths, struct BinaryArrayList **o) {
  *o = NULL;
  if (paths == NULL) return 0;
  int i = paths == &LP[0] ? 0 : paths == &LP[1] ? 1 : paths == &LP[2] ? 2 : -1;
  VASSERT(i >= 0, "a configured list of certificate files is read");
  if (step()) return -1;
  if (i < 0 || LK[i] <= 0) return 0;
  struct BinaryArrayList *l = init_array_list();
  uint8_t b = (uint8_t)(50 + i);
  if (l && push_array_list(l, &b, 1, 0) < 0) { free_array_list(l); l = NULL; }
  if (l == NULL) { copy_failed = true; return -1; }
  *o = l;
  point();
  return 0;
}
static void is_list(const struct BinaryArrayList *l, int i, const char *t) {
  if (LK[i] <= 0) { VASSERT(l == NULL || dl_list_empty(&l->list), t); return; }
  bool ok = l != NULL && !dl_list_empty(&l->list);
  VASSERT(ok, t);
  if (!ok) return;
  const struct BinaryArrayList *e = dl_list_entry(l->list.next, struct BinaryArrayList, list);
  VASSERT(e->length == 1 && e->arr[0] == 50 + i && e->list.next == &l->list, t);
}
#ifdef NEST
static struct tm shared_tm;
VIS struct tm *x_localtime_r(const time_t *t, struct tm *c) { if (step()) return NULL; *c = NOW; point(); return c; }
VIS struct tm *x_localtime(const time_t *t) { if (step()) return NULL; shared_tm = NOW; point(); return &shared_tm; }
#else
VIS int get_localtime(struct tm *c) { VASSERT(c != NULL, "a place for the time"); if (step()) return -1; *c = NOW; return 0; }
#endif
VIS struct BinaryArray *sign_voucher_request(const struct BinaryArray *cms, const struct tm *t, const char *s, const struct BinaryArray *issuer, const struct BinaryArray *tls, const struct BinaryArray *cert,
                                             const struct BinaryArray *key, const struct BinaryArrayList *verify, const struct BinaryArrayList *store, const struct BinaryArrayList *add) {
  VASSERT(!failed && !copy_failed && !v_oom_hit, "nothing is signed after a failure");
  VASSERT(body_ok && same(cms, &BODY), "the request signed for is the decoded body");
  VASSERT(t != NULL && t->tm_year == NOW.tm_year && t->tm_mon == NOW.tm_mon && t->tm_mday == NOW.tm_mday && t->tm_hour == NOW.tm_hour && t->tm_min == NOW.tm_min && t->tm_sec == NOW.tm_sec, "the creation time is the current time");
  VASSERT(s != NULL && serial != NULL && strcmp(s, serial) == 0, "the serial number is that of the TLS peer");
  VASSERT(same(issuer, &ISSUER), "the issuer is that of the TLS peer");
  VASSERT(same(tls, &TLSC), "the proximity certificate is the registrar's TLS certificate");
  VASSERT(same(cert, &SIGNC) && same(key, &SIGNK), "signed with the configured certificate and key");
  is_list(verify, 1, "the pledge is verified with the configured certificates");
  is_list(store, 2, "the pledge is verified with the configured store");
  is_list(add, 0, "the configured additional certificates are added");
  VASSERT(signed_n++ == 0, "signed once");
  return step() ? NULL : out(copy(&SIGNED));
}
int https_post_request(const std::string &key, const std::string &cert, const std::string &host, int port, const std::string &path, bool verify, const std::string &body,
                       const std::string &type, struct HttpResponse &res) {
  VASSERT(!failed && !copy_failed && !v_oom_hit && signed_n == 1, "nothing is sent after a failure");
  VASSERT(key == "tls.key" && cert == "tls.crt", "the registrar identifies itself with its TLS key and certificate");
  VASSERT(host == "masa" && port == (int)MC.port && path == "/.well-known/brski/requestvoucher", "sent to the configured MASA");
  const char *w = enc(&SIGNED);
  VASSERT(w != NULL && body == w, "exactly the signed request is sent");
  VASSERT(posted_n++ == 0, "sent once");
  int st = nd_int();
  VASSUME(st >= -1 && st <= 999);
  point();
  if (st < 0) { failed = true; return st; }
  answered = st >= 200 && st < 300;
  if (!answered) failed = true;
  #ifdef FEWANS
  size_t n = 1;
#else
  size_t n = nd_pick(0, 2);
#endif
  for (size_t i = 0; i < n; i++) answer->push_back(nd_char());
#ifdef LONG
  *answer += rep(8 * LONG, "SGVs", 4);
#endif
  point();
  res.response = *answer;
  res.peer_certificate = MAYBE ? (CRYPTO_CERT)&masa_obj : NULL;
  if (res.peer_certificate) masa_live++;
  return st;
}
VIS ssize_t crypto_sign_cert(const uint8_t *key, const size_t kl, const uint8_t *ca, const size_t cl, const size_t n, uint8_t **cert) {
  struct BinaryArray k, c, b;
  k.array = (uint8_t *)key; k.length = kl; c.array = (uint8_t *)ca; c.length = cl; b.array = *cert; b.length = n;
  VASSERT(!failed && !copy_failed && !v_oom_hit, "nothing is signed after a failure");
  VASSERT(same(&k, &CAK) && same(&c, &CAC), "signed with the configured CA key and certificate");
  VASSERT(body_ok && same(&b, &BODY), "the certificate signed is the decoded body");
  VASSERT(signed_n++ == 0, "signed once");
  if (b.array == NULL) { failed = true; return -1; }
  if (step()) return -1;
  uint8_t *p = copy_bytes(&SIGNED);
  if (p == NULL) return -1;
  v_free(*cert);
  *cert = p;
  return (ssize_t)SIGNED.length;
}
VIS FILE *x_fopen(const char *p, const char *m) {
  VASSERT(strcmp(p, "reg.log") == 0 && m[0] == 'a', "the configured log file is appended to");
  if (soft()) return NULL;
  VASSERT(files++ == 0, "one file is open at a time");
  return (FILE *)&file_obj;
}
VIS int x_fprintf(FILE *f, const char *m, ...) { VASSERT(f == (FILE *)&file_obj && files == 1, "the open log file is written to"); getlog++; return 1; }
VIS int x_fputs(const char *m, FILE *f) { VASSERT(f == (FILE *)&file_obj && files == 1, "the open log file is written to"); getlog++; return 1; }
VIS int x_fflush(FILE *f) { VASSERT(f == (FILE *)&file_obj && files == 1, "the open log file is written to"); return 0; }
VIS int x_fclose(FILE *f) { VASSERT(f == (FILE *)&file_obj && files == 1, "the open log file is closed"); files--; return 0; }
VIS time_t x_time(time_t *t) { if (t) *t = 5; return 5; }

static void setup_req(void) {
#ifdef FEWANS
#define SYM "AQ=="
#else
#define SYM "????"
#endif
  static const char *const bodies[] = {SYM, "??==", "", "=", "AAAA????"};
  size_t bi = nd_pick(0, NBODY);
  BODYT = tpl(bodies[bi]);
#ifdef LONG
  BODYT = rep(8 * LONG, "QUJD", 4);
#endif
  body_ok = dec(BODYT, &BODY);
  ISSUER = nd_arr(2);
  #ifdef FEWANS
  size_t k = 1;
#else
  size_t k = nd_pick(0, CMSMAX);
#endif
  SIGNED = nd_arr(k);
  size_t sl = nd_pick(0, NSERIAL);
  serial = sl == 0 ? NULL : nd_text(sl - 1);
#ifdef LONG
  SIGNED.array = (uint8_t *)rep(6 * LONG, "xyz", 3); SIGNED.length = 6 * LONG;
  serial = rep(LONG, "serial-", 7);
#endif
  nserial = MAYBE ? nd_text(1) : NULL;
  num1 = nd_u64(); num2 = nd_u64();
  NOW.tm_year = nd_int(); NOW.tm_mon = nd_int(); NOW.tm_mday = nd_int(); NOW.tm_hour = nd_int(); NOW.tm_min = nd_int(); NOW.tm_sec = nd_int();
  #ifdef STEP
  fail_at = (int)nd_range(0, 14);
#endif
}
static void setup(void) {
  size_t miss = nd_pick(0, NMISS);
  TLSC = nd_arr(1); SIGNC = nd_arr(1); SIGNK = nd_arr(1); CAC = nd_arr(1); CAK = nd_arr(1);
#ifdef INDEP
  for (int i = 0; i < 3; i++) LK[i] = (int)nd_pick(0, NLIST) - 1;
#else
#ifdef LONE
  int lk = 1;
#else
  int lk = (int)nd_pick(0, NLIST) - 1;                                // the lists are of the same kind
#endif
  for (int i = 0; i < 3; i++) LK[i] = lk;
#endif
  RC.tls_cert_path = miss == 1 ? NULL : (char *)"tls.crt"; RC.tls_key_path = miss == 4 ? NULL : (char *)"tls.key"; RC.cms_sign_cert_path = miss == 2 ? NULL : (char *)"sign.crt";
  RC.cms_sign_key_path = miss == 3 ? NULL : (char *)"sign.key";
  RC.tls_ca_cert_path = miss == 1 ? NULL : (char *)"ca.crt"; RC.tls_ca_key_path = miss == 2 ? NULL : (char *)"ca.key";
  RC.cms_add_certs_paths = LK[0] < 0 ? NULL : &LP[0]; RC.cms_verify_certs_paths = LK[1] < 0 ? NULL : &LP[1]; RC.cms_verify_store_paths = LK[2] < 0 ? NULL : &LP[2];
  RC.bind_address = (char *)"registrar"; RC.port = 1;
  MC.bind_address = miss == 5 ? NULL : (char *)"masa"; MC.port = nd_u32();
  // other settings of the MASA that a mistaken handler could use
  MC.tls_cert_path = (char *)"m.crt"; MC.tls_key_path = (char *)"m.key"; MC.tls_ca_cert_path = (char *)"mca.crt"; MC.cms_sign_cert_path = (char *)"ms.crt"; MC.cms_sign_key_path = (char *)"ms.key";
  MC.ldevid_ca_cert_path = (char *)"ld.crt";
  CTX.rconf = &RC; CTX.mconf = &MC; strcpy(CTX.log_path, "reg.log");
  setup_req();
#ifdef OOM
  v_oom_at = (int)nd_range(0, MAXALLOC);
#endif
}
typedef int handler(const RequestHeader &, const std::string &, CRYPTO_CERT, ResponseHeader &, std::string &, void *);
static int serve(handler *h, const std::string &body, std::string &response, std::string &type) {
  RequestHeader rq;
  ResponseHeader rs;
  int st;
  try { st = h(rq, body, PEER, rs, response, &CTX); } catch (const std::exception &e) { return 505; } // the answer of the HTTP layer to an exception
  type = rs["Content-Type"];
  return st;
}
#define OK(s) ((s) >= 200 && (s) < 300)
#ifdef OOM
#define BOUND(an, c) VASSERT(v_alloc_n - an < MAXALLOC || !(c), "BOUND number of allocations")
#else
#define BOUND(an, c) (void)0
#endif
static void voucher(void) {
  {
    std::string body(BODYT), response, type, ans;
    answer = &ans;
    int an = v_alloc_n;
    int st = serve(registrar_requestvoucher, body, response, type);
    BOUND(an, answered);
    v_oom_at = 0;
    if (OK(st)) {
      VASSERT(signed_n == 1 && posted_n == 1 && answered && !failed && !copy_failed, "success only after the MASA's success");
      VASSERT(response == ans, "the MASA's answer is returned unchanged");
      VASSERT(type == "application/voucher-cms+json", "the answer is labelled as a voucher");
      VWITNESS("relayed");
    } else {
      VASSERT(st >= 400 && st <= 599, "every other outcome is an error answer");
      VASSERT(failed || copy_failed || v_oom_hit || !body_ok || serial == NULL || RC.tls_key_path == NULL || MC.bind_address == NULL, "a request without failure is answered with success");
      if (!body_ok) VWITNESS("body does not decode");
      if (posted_n == 1) VWITNESS("error of the MASA");
    }
  }
  VASSERT(masa_live == 0, "the MASA's certificate is released");
}
static void enroll(void) {
  {
    std::string body(BODYT), response, type, ans;
    answer = &ans;
    int an = v_alloc_n;
    R->enroll = true;
    int st = serve(registrar_est_simpleenroll, body, response, type);
    BOUND(an, true);
    v_oom_at = 0;
    if (OK(st)) {
      VASSERT(body_ok && signed_n == 1 && !failed && !copy_failed, "success only after the certificate is signed");
      const char *w = enc(&SIGNED);
      VASSERT(w != NULL && response == w, "the answer is the base64 text of the signed certificate");
      if (getlog) VWITNESS("recorded");
      if (soft_failed) VWITNESS("not recorded");
    } else {
      VASSERT(st >= 400 && st <= 599, "every other outcome is an error answer");
      VASSERT(failed || copy_failed || v_oom_hit || !body_ok || BODY.array == NULL, "a request without failure is answered with success");
      VWITNESS("refused");
    }
  }
  VASSERT(new_live == 0, "the new certificate's context is released");
  VASSERT(files == 0, "the log file is closed");
}
VIS void h_voucher(void) {
  setup();
  int live = v_live;
  voucher();
  VASSERT(v_live == live, "everything allocated is released");
}
VIS void h_enroll(void) {
  setup();
  int live = v_live;
  enroll();
  VASSERT(v_live == live, "everything allocated is released");
}
#ifdef NEST
static void other(void) { SECOND(); }
VIS void h_nest(void) {
  setup();
  R = &RQ[1];
  setup_req();
#ifdef FAIL2
  fail_at = (int)nd_range(0, 14);
#endif
  R = &RQ[0];
  struct registrar_config rc = RC;
  struct masa_config mc = MC;
  struct RegistrarContext ctx = CTX;
  int live = v_live;
  nest_at = (int)nd_range(1, NPOINTS);
  FIRST();
  VASSERT(point_n < NPOINTS || nested, "BOUND number of points");
  VASSERT(v_live == live, "everything allocated is released");
  VASSERT(memcmp(&rc, &RC, sizeof rc) == 0 && memcmp(&mc, &MC, sizeof mc) == 0 && CTX.rconf == ctx.rconf && CTX.mconf == ctx.mconf && strcmp(CTX.log_path, ctx.log_path) == 0, "the configuration is as before");
}
#endif
