// C29, C32: the MASA's voucher handler, alone, twice on one server, and interleaved with itself
#include "srvmodel.h"
#ifdef SMALL
#define SMALLB
#define SMALLT
#endif
#include <exception>
#include "brski/masa/masa_api.hpp"
#include "brski/masa/masa_config.h"
#include "brski/registrar/registrar_config.h"
#ifndef NREQ
#define NREQ 1
#endif
static struct registrar_config RC, RC0;
static struct masa_config MC, MC0;
static struct MasaContext CTX;
static struct BinaryArrayList LP[5];                          // additional, registrar verify, registrar store, pledge verify, pledge store
static int LK[5];
static struct BinaryArray SIGNC, SIGNK, LDEV;
static struct tm EXPIRES;
static bool time_ok;
struct req {
  const char *text;
  bool ok;
  struct BinaryArray body, voucher;
  int step_n, fail_at, signed_n, asked;
  bool failed;
};
static struct req RQ[2], *R = RQ;
static int serve(struct req *r);
#ifdef NEST
static int point_n, nest_at;
static bool nested;
static void point(void) {
  if (nested || ++point_n != nest_at) return;
  nested = true;
  struct req *old = R;
  R = &RQ[1];
  serve(R);
  R = old;
  VWITNESS("interleaved");
}
VIS void log_levels(uint8_t l, const char *f, uint32_t n, const char *m, ...) { point(); }
#else
static void point(void) {}
#endif
static bool step(void) { point(); if (++R->step_n == R->fail_at) { R->failed = true; return true; } return false; }
static struct BinaryArray *out(struct BinaryArray *r) { point(); return r; }

VIS struct BinaryArray *file_to_x509buf(const char *f) {
  if (f == NULL) { R->failed = true; return NULL; }
  const struct BinaryArray *a = strcmp(f, "ms.crt") == 0 ? &SIGNC : strcmp(f, "ld.crt") == 0 ? &LDEV : NULL;
  VASSERT(a != NULL, "a configured certificate file is read");
  if (a == NULL) return NULL;
  return step() ? NULL : out(copy(a));
}
VIS struct BinaryArray *file_to_keybuf(const char *f) {
  if (f == NULL) { R->failed = true; return NULL; }
  VASSERT(strcmp(f, "ms.key") == 0, "the configured key file is read");
  return step() ? NULL : out(copy(&SIGNK));
}
VIS int load_cert_files(struct BinaryArrayList *paths, struct BinaryArrayList **o) {
  *o = NULL;
  if (paths == NULL) return 0;
  int i = -1;
  for (int k = 0; k < 5; k++) if (paths == &LP[k]) i = k;
  VASSERT(i >= 0, "a configured list of certificate files is read");
  if (step()) return -1;
  if (i < 0 || LK[i] <= 0) return 0;
  struct BinaryArrayList *l = init_array_list();
  uint8_t b = (uint8_t)(50 + i);
  if (l && push_array_list(l, &b, 1, 0) < 0) { free_array_list(l); l = NULL; }
  if (l == NULL) { copy_failed = true; return -1; }
  *o = l;
  point();
  return 0;
}
static void is_list(const struct BinaryArrayList *l, int i, const char *t) {
  if (LK[i] <= 0) { VASSERT(l == NULL || dl_list_empty(&l->list), t); return; }
  bool ok = l != NULL && !dl_list_empty(&l->list);
  VASSERT(ok, t);
  if (!ok) return;
  const struct BinaryArrayList *e = dl_list_entry(l->list.next, struct BinaryArrayList, list);
  VASSERT(e->length == 1 && e->arr[0] == 50 + i && e->list.next == &l->list, t);
}
VIS struct BinaryArray *sign_masa_pledge_voucher(const struct BinaryArray *cms, const struct tm *t, voucher_req_fn cb, void *ctx, const struct BinaryArray *cert, const struct BinaryArray *key,
                                                 const struct BinaryArrayList *rv, const struct BinaryArrayList *rs, const struct BinaryArrayList *pv, const struct BinaryArrayList *ps,
                                                 const struct BinaryArrayList *add) {
  VASSERT(!R->failed && !copy_failed && !v_oom_hit, "nothing is signed after a failure");
  VASSERT(R->ok && same(cms, &R->body), "the request answered is the decoded body");
  VASSERT(time_ok && t != NULL && t->tm_year == EXPIRES.tm_year && t->tm_mon == EXPIRES.tm_mon && t->tm_mday == EXPIRES.tm_mday && t->tm_hour == EXPIRES.tm_hour && t->tm_min == EXPIRES.tm_min &&
          t->tm_sec == EXPIRES.tm_sec, "the expiry is the configured one");
  VASSERT(same(cert, &SIGNC) && same(key, &SIGNK), "signed with the configured certificate and key");
  is_list(rv, 1, "the registrar is verified with the configured certificates");
  is_list(rs, 2, "the registrar is verified with the configured store");
  is_list(pv, 3, "the pledge is verified with the configured certificates");
  is_list(ps, 4, "the pledge is verified with the configured store");
  is_list(add, 0, "the configured additional certificates are added");
  VASSERT(R->signed_n++ == 0, "signed once");
  if (step()) return NULL;
  VASSERT(cb != NULL, "the pinned certificate can be asked for");
  struct BinaryArray pinned;
  pinned.array = NULL; pinned.length = 0;
  int r = cb("S", R->asked ? rv : NULL, ctx, &pinned);
  if (r < 0) { VASSERT(v_oom_hit, "the pinned certificate is given"); R->failed = true; return NULL; }
  VASSERT(same(&pinned, &LDEV), "the configured domain certificate is pinned");
  point();
  VASSERT(same(&pinned, &LDEV), "the pinned certificate is the request's own");
  v_free(pinned.array);
  struct BinaryArray *v = copy(&R->voucher);
  return out(v);
}

static char *rep(size_t n, const char *t, size_t k) {
  char *s = (char *)u_malloc(n + 1);
  for (size_t i = 0; i < n; i++) s[i] = t[i % k];
  s[n] = 0;
  return s;
}
static void setup_req(struct req *r) {
#ifdef SMALLB
  static const char *const bodies[] = {"AQ==", "=", "Qk?="};
#else
  static const char *const bodies[] = {"????", "??==", "", "=", "AAAA????"};
#endif
  size_t bi = nd_pick(0, NBODY);
  r->text = tpl(bodies[bi]);
#ifdef SMALLB
  size_t k = 1;
#else
  size_t k = nd_pick(0, 1);
#endif
  r->voucher = nd_arr(k);
#ifdef LONG
  r->text = rep(8 * LONG, "QUJD", 4);
  r->voucher.array = (uint8_t *)rep(6 * LONG, "xyz", 3); r->voucher.length = 6 * LONG;
#endif
  r->ok = dec(r->text, &r->body);
  r->asked = nd_bool();
#ifdef STEP
  r->fail_at = (int)nd_range(0, 11);
#endif
}
static void setup(void) {
  static const char *const times[] = {"20??-12-31T23:59:5?Z", "1999-0?-2?T0?:5?:00Z", "2023-01-02T03:04", "", NULL};
  size_t ti = nd_pick(0, NTIME), miss = nd_pick(0, NMISS);
#ifdef SMALLT
  ti = ti == 0 ? 0 : 4;
#endif
  MC.expires_on = times[ti] ? tpl(times[ti]) : NULL;
  { struct quiet q = q_on(); int live = v_live; time_ok = MC.expires_on != NULL && serialize_str2time(MC.expires_on, &EXPIRES) >= 0; v_live = live; q_off(q); }
#ifdef SMALLT
  VASSUME(ti == 4 || time_ok);
#endif
  SIGNC = nd_arr(1); SIGNK = nd_arr(1); LDEV = nd_arr(2);
#ifdef INDEP
  for (int i = 0; i < 5; i++) LK[i] = nd_bool() ? 1 : -1;
#else
  int lk = (int)nd_pick(0, NLIST) - 1;
  for (int i = 0; i < 5; i++) LK[i] = lk;
#endif
  MC.ldevid_ca_cert_path = miss == 1 ? NULL : (char *)"ld.crt"; MC.cms_sign_cert_path = miss == 2 ? NULL : (char *)"ms.crt"; MC.cms_sign_key_path = miss == 3 ? NULL : (char *)"ms.key";
  MC.cms_add_certs_paths = LK[0] < 0 ? NULL : &LP[0]; MC.cms_verify_certs_paths = LK[1] < 0 ? NULL : &LP[1]; MC.cms_verify_store_paths = LK[2] < 0 ? NULL : &LP[2];
  RC.cms_verify_certs_paths = LK[3] < 0 ? NULL : &LP[3]; RC.cms_verify_store_paths = LK[4] < 0 ? NULL : &LP[4];
  // settings a mistaken handler could use instead
  MC.tls_cert_path = (char *)"mt.crt"; MC.tls_key_path = (char *)"mt.key"; MC.tls_ca_cert_path = (char *)"mca.crt";
  RC.cms_sign_cert_path = (char *)"rs.crt"; RC.cms_sign_key_path = (char *)"rs.key"; RC.tls_ca_cert_path = (char *)"ca.crt"; RC.tls_ca_key_path = (char *)"ca.key"; RC.tls_cert_path = (char *)"rt.crt";
  CTX.rconf = &RC; CTX.mconf = &MC;
  RC0 = RC; MC0 = MC;
#if defined(TWICE) || defined(NEST)
  for (int i = 0; i < 2; i++) setup_req(&RQ[i]);
#else
  setup_req(&RQ[0]);
#endif
#ifdef OOM
  v_oom_at = (int)nd_range(0, MAXALLOC);
#endif
}
#define GOOD(s) ((s) >= 200 && (s) < 300)
static int peer_obj;
static int serve(struct req *r) {
  RequestHeader rq;
  ResponseHeader rs;
  std::string body(r->text), response;
  int st;
  try { st = masa_requestvoucher(rq, body, (CRYPTO_CERT)&peer_obj, rs, response, &CTX); } catch (const std::exception &e) { return 505; } // the answer of the HTTP layer to an exception
  struct quiet q = q_on();
  if (GOOD(st)) {
    VASSERT(r->ok && time_ok && r->signed_n == 1 && !r->failed && !copy_failed, "success only after a voucher is signed");
    const char *w = enc(&r->voucher);
    VASSERT(w != NULL && response == w, "the answer is the base64 text of the signed voucher");
    VWITNESS("voucher");
  } else {
    VASSERT(st >= 400 && st <= 599, "every other outcome is an error answer");
    VASSERT(r->failed || copy_failed || v_oom_hit || !r->ok || !time_ok, "a request without failure is answered with success");
    VWITNESS("refused");
  }
  q_off(q);
  return st;
}
static bool untouched(void) { return memcmp(&RC, &RC0, sizeof RC) == 0 && memcmp(&MC, &MC0, sizeof MC) == 0 && CTX.rconf == &RC && CTX.mconf == &MC; }
VIS void h_masa(void) {
  setup();
  int live = v_live;
#ifdef NEST
  nest_at = (int)nd_range(1, NPOINTS);
#endif
  int an = v_alloc_n;
  int st = serve(&RQ[0]);
#ifdef OOM
  VASSERT(v_alloc_n - an < MAXALLOC, "BOUND number of allocations");
#endif
#ifdef NEST
  VASSERT(point_n < NPOINTS || nested, "BOUND number of points");
#endif
  VASSERT(v_live == live, "everything allocated is released");
#ifdef TWICE
  // a second request on the same server, whatever the first one met
  v_oom_at = 0;
  R = &RQ[1];
  bool old = copy_failed; bool oom = v_oom_hit;
  copy_failed = false; v_oom_hit = false;
  int st2 = serve(&RQ[1]);
  VASSERT(v_live == live, "everything allocated is released");
  if (!GOOD(st) && GOOD(st2)) VWITNESS("success after failure");
  (void)old; (void)oom;
#endif
  VASSERT(untouched(), "the configuration is as before");
}
