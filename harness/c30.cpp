// C30: the pledge's bootstrap and enrolment
#include "srvmodel.h"
#include <cstdio>
#include <exception>
#include "brski/masa/masa_config.h"
#include "brski/pledge/pledge_config.h"
#include "brski/pledge/pledge_request.hpp"
#include "brski/registrar/registrar_config.h"
extern "C" {
#include "brski/pledge/pledge_utils.h"
}
static struct pledge_config PC;
static struct registrar_config RC;
static struct masa_config MC;
static struct BinaryArrayList LP[2];                          // verify, store
static int LK[2];
static struct BinaryArray TLS[2], PIN, NONCE, ANSWER, KEY, CERT, ENROLLED;
static int cert_obj[2], cert_live[2];
static const char *REQ, *ANSWERT, *ENROLLT;
static bool nonce_ok = true, answer_ok, enroll_ok;
static int step_n, fail_at, probed, sent, built, verified, enrolled;
static bool failed;
static bool step(void) { if (++step_n == fail_at) { failed = true; return true; } return false; }
#define CLEAN() (!failed && !copy_failed && !v_oom_hit)
static void identity(const std::string &key, const std::string &cert, const std::string &host, int port) {
  VASSERT(key == "idev.key" && cert == "idev.crt", "the pledge identifies itself with its IDevID");
  VASSERT(host == "registrar" && port == (int)RC.port, "the configured registrar is asked");
}
static int status(void) { int st = nd_int(); VASSUME(st >= -1 && st <= 999); return st; }
#define GOOD(s) ((s) >= 200 && (s) < 300)
int https_post_request(const std::string &key, const std::string &cert, const std::string &host, int port, const std::string &path, bool verify, const std::string &body,
                       const std::string &type, struct HttpResponse &res) {
  identity(key, cert, host, port);
  VASSERT(path == "/.well-known/brski/requestvoucher", "a voucher is asked for");
  int k = body.empty() ? 0 : 1;
  if (k == 0) VASSERT(probed++ == 0 && sent == 0, "the registrar's certificate is asked for first");
  else {
    VASSERT(CLEAN() && built == 1 && body == REQ, "exactly the request built for the registrar's certificate is sent");
    VASSERT(sent++ == 0, "sent once");
  }
  int st = status();
  if (st < 0) { failed = true; return st; }
  if (k == 1 && !GOOD(st)) failed = true;
  bool with = nd_bool();
  if (!with) failed = true;
  res.peer_certificate = with ? (CRYPTO_CERT)&cert_obj[k] : NULL;
  if (with) cert_live[k]++;
  res.response = k == 0 ? "Router error" : ANSWERT;
  return st;
}
VIS struct BinaryArray *crypto_cert2buf(CRYPTO_CERT c) {
  if (c == NULL) { failed = true; return NULL; }
  int k = c == (CRYPTO_CERT)&cert_obj[0] ? 0 : 1;
  VASSERT(c == (CRYPTO_CERT)&cert_obj[k] && cert_live[k] == 1, "the certificate read is that of the connection");
  return step() ? NULL : copy(&TLS[k]);
}
VIS void crypto_free_certcontext(CRYPTO_CERT c) {
  if (c == NULL) return;
  int k = c == (CRYPTO_CERT)&cert_obj[0] ? 0 : 1;
  VASSERT(c == (CRYPTO_CERT)&cert_obj[k] && cert_live[k] == 1, "a certificate is released once");
  cert_live[k]--;
}
VIS char *voucher_pledge_request_to_base64(const struct pledge_config *p, const struct BinaryArray *tls) {
  VASSERT(CLEAN(), "nothing is built after a failure");
  VASSERT(p == &PC && same(tls, &TLS[0]), "the request is built for the certificate the registrar presented");
  VASSERT(built++ == 0, "built once");
  if (step()) return NULL;
  struct BinaryArray a; a.array = (uint8_t *)REQ; a.length = strlen(REQ) + 1;
  return (char *)copy_bytes(&a);
}
VIS int load_cert_files(struct BinaryArrayList *paths, struct BinaryArrayList **o) {
  *o = NULL;
  if (paths == NULL) return 0;
  int i = paths == &LP[0] ? 0 : paths == &LP[1] ? 1 : -1;
  VASSERT(i >= 0, "a configured list of certificate files is read");
  if (step()) return -1;
  if (i < 0 || LK[i] <= 0) return 0;
  struct BinaryArrayList *l = init_array_list();
  uint8_t b = (uint8_t)(50 + i);
  if (l && push_array_list(l, &b, 1, 0) < 0) { free_array_list(l); l = NULL; }
  if (l == NULL) { copy_failed = true; return -1; }
  *o = l;
  return 0;
}
static void is_list(const struct BinaryArrayList *l, int i, const char *t) {
  if (LK[i] <= 0) { VASSERT(l == NULL || dl_list_empty(&l->list), t); return; }
  bool ok = l != NULL && !dl_list_empty(&l->list);
  VASSERT(ok, t);
  if (!ok) return;
  const struct BinaryArrayList *e = dl_list_entry(l->list.next, struct BinaryArrayList, list);
  VASSERT(e->length == 1 && e->arr[0] == 50 + i && e->list.next == &l->list, t);
}
static bool alone;                                             // verification alone, without the connection
VIS int verify_masa_pledge_voucher(const struct BinaryArray *cms, const char *serial, const struct BinaryArray *nonce, const struct BinaryArray *tls, const struct BinaryArrayList *domain,
                                   const struct BinaryArrayList *certs, const struct BinaryArrayList *store, struct BinaryArrayList **outc, struct BinaryArray *const pinned) {
  VASSERT(CLEAN() && (alone || (sent == 1 && answer_ok)), "only the answer of a successful request is verified");
  VASSERT(same(cms, &ANSWER), "the answer that is verified is the received one");
  VASSERT(PC.serial_number == NULL ? serial == NULL : serial != NULL && strcmp(serial, PC.serial_number) == 0, "verified for the pledge's serial number");
  VASSERT(PC.nonce == NULL ? nonce == NULL : nonce_ok && same(nonce, &NONCE), "verified for the pledge's nonce");
  VASSERT(same(tls, &TLS[1]), "verified against the certificate of the same connection");
  VASSERT(domain == NULL || dl_list_empty(&domain->list), "no other certificates are trusted");
  is_list(certs, 0, "verified with the configured certificates");
  is_list(store, 1, "verified with the configured trust store");
  VASSERT(outc == NULL || true, "");
  VASSERT(pinned != NULL && pinned->array == NULL, "a place for the pinned certificate");
  verified++;
  if (step()) return -1;
  uint8_t *p = copy_bytes(&PIN);
  if (p == NULL) return -1;
  pinned->array = p; pinned->length = PIN.length;
  return 0;
}
VIS int crypto_getrand(struct BinaryArray *b) { if (step()) return -1; for (size_t i = 0; i < b->length; i++) b->array[i] = (uint8_t)(i * 37); return 0; }
VIS ssize_t crypto_generate_eckey(uint8_t **k) {
  if (step()) return -1;
  uint8_t *p = copy_bytes(&KEY);
  if (p == NULL) return -1;
  *k = p;
  return (ssize_t)KEY.length;
}
VIS ssize_t crypto_generate_eccert(const struct crypto_cert_meta *m, const uint8_t *key, const size_t n, uint8_t **c) {
  struct BinaryArray k; k.array = (uint8_t *)key; k.length = n;
  VASSERT(CLEAN() && same(&k, &KEY), "the certificate is for the new key");
  VASSERT(m != NULL && m->subject != NULL && m->issuer != NULL, "the names are given");
  if (step()) return -1;
  uint8_t *p = copy_bytes(&CERT);
  if (p == NULL) return -1;
  *c = p;
  return (ssize_t)CERT.length;
}
int https_post_request_ca(const std::string &key, const std::string &cert, const std::string &ca, const std::string &host, int port, const std::string &path, const std::string &body,
                          const std::string &type, std::string &response) {
  VASSERT(CLEAN() && verified == 1, "enrolment only after a successful bootstrap");
  identity(key, cert, host, port);
  VASSERT(path == "/.well-known/est/simpleenroll", "enrolment is asked for");
  std::string want = std::string("-----BEGIN CERTIFICATE-----\n") + enc(&PIN) + "\n-----END CERTIFICATE-----", got(ca);
  while (!got.empty() && got[got.size() - 1] == '\n') got.erase(got.size() - 1);
  VASSERT(got == want, "only the pinned certificate is trusted");
  const char *w = enc(&CERT);
  VASSERT(w != NULL && body == w, "the own certificate is sent for signing");
  VASSERT(enrolled++ == 0, "sent once");
  int st = status();
  if (st < 0) { failed = true; return st; }
  if (!GOOD(st)) failed = true;
  response = ENROLLT;
  return st;
}
VIS time_t x_time(time_t *t) { if (t) *t = 5; return 5; }
VIS int x_rand(void) { return 12345; }
VIS void x_srand(unsigned s) {}
static char *rep(size_t n, const char *t, size_t k) {
  char *s = (char *)u_malloc(n + 1);
  for (size_t i = 0; i < n; i++) s[i] = t[i % k];
  s[n] = 0;
  return s;
}
static void setup(void) {
  static const char *const texts[] = {"AQ==", "=", "", "????", "??=="};
  size_t ai = nd_pick(0, NANS), ei = nd_pick(0, NENR), ni = nd_pick(0, NNONCE), miss = nd_pick(0, NMISS);
  static const char *const nonces[] = {NULL, "Ag==", "=", "??==", "????"};
  ANSWERT = tpl(texts[ai]);
  ENROLLT = tpl(texts[ei]);
  TLS[0] = nd_arr(2); TLS[1] = nd_arr(2);
  PIN = nd_arr(1); KEY = nd_arr(1); CERT = nd_arr(2);
  REQ = "REQUEST";
#ifdef LONG
  ANSWERT = rep(8 * LONG, "QUJD", 4); ENROLLT = rep(8 * LONG, "SGVs", 4); REQ = rep(8 * LONG, "request-", 8);
  PIN.array = (uint8_t *)rep(3 * LONG, "pin", 3); PIN.length = 3 * LONG;
  CERT.array = (uint8_t *)rep(3 * LONG, "crt", 3); CERT.length = 3 * LONG;
#endif
  answer_ok = dec(ANSWERT, &ANSWER);
  enroll_ok = dec(ENROLLT, &ENROLLED);
  PC.nonce = nonces[ni] ? tpl(nonces[ni]) : NULL;
  if (PC.nonce) nonce_ok = dec(PC.nonce, &NONCE);
  PC.serial_number = miss == 1 ? NULL : nd_text(2);
#ifdef LONG
  PC.serial_number = rep(LONG, "serial-", 7);
#endif
  PC.idevid_key_path = miss == 2 ? NULL : (char *)"idev.key"; PC.idevid_cert_path = miss == 3 ? NULL : (char *)"idev.crt";
  PC.cms_sign_cert_path = (char *)"sign.crt"; PC.cms_sign_key_path = (char *)"sign.key"; PC.idevid_ca_cert_path = (char *)"ica.crt";
  RC.bind_address = miss == 4 ? NULL : (char *)"registrar"; RC.port = nd_u32(); MC.bind_address = (char *)"masa"; MC.port = nd_u32();
  RC.tls_cert_path = (char *)"tls.crt"; RC.tls_key_path = (char *)"tls.key";
  for (int i = 0; i < 2; i++) LK[i] = (int)nd_pick(0, NLIST) - 1;
  PC.cms_verify_certs_paths = LK[0] < 0 ? NULL : &LP[0]; PC.cms_verify_store_paths = LK[1] < 0 ? NULL : &LP[1];
  static struct BinaryArrayList other[3];
  PC.cms_add_certs_paths = &other[0]; RC.cms_verify_certs_paths = &other[1]; MC.cms_verify_certs_paths = &other[2];
#ifdef STEP
  fail_at = (int)nd_range(0, 12);
#endif
#ifdef OOM
  v_oom_at = (int)nd_range(0, MAXALLOC);
#endif
}
#define MISSING (PC.idevid_key_path == NULL || PC.idevid_cert_path == NULL || RC.bind_address == NULL)
#ifdef OOM
#define BOUND(an) VASSERT(v_alloc_n - an < MAXALLOC, "BOUND number of allocations")
#else
#define BOUND(an) (void)0
#endif
static void released(int live) {
  VASSERT(cert_live[0] == 0 && cert_live[1] == 0, "the certificates of the connections are released");
  VASSERT(v_live == live, "everything allocated is released");
}
VIS void h_boot(void) {
  setup();
  int live = v_live, r, an = v_alloc_n;
  struct BinaryArray pin;
  pin.array = NULL; pin.length = 0;
  try { r = post_voucher_pledge_request(&PC, &RC, &MC, &pin); } catch (const std::exception &e) { r = -1; }
  BOUND(an);
  v_oom_at = 0;
  if (r == 0) {
    VASSERT(CLEAN() && sent == 1 && verified == 1 && answer_ok && nonce_ok, "success only with a verified voucher");
    VASSERT(same(&pin, &PIN), "the pinned certificate is returned");
    free_binary_array_content(&pin);
    VWITNESS("bootstrapped");
  } else {
    VASSERT(r < 0, "0 or negative");
    VASSERT(pin.array == NULL, "a failure hands out no pinned certificate");
    VASSERT(!CLEAN() || !answer_ok || !nonce_ok || MISSING, "without failure the bootstrap succeeds");
    if (verified == 1) VWITNESS("voucher refused");
    VWITNESS("failed");
  }
  released(live);
}
VIS void h_verify(void) {
  setup();
  alone = true;
  int live = v_live, r, an = v_alloc_n;
  struct BinaryArray pin;
  pin.array = NULL; pin.length = 0;
  try { r = verify_masa_pledge_request(&PC, &ANSWER, &TLS[1], &pin); } catch (const std::exception &e) { r = -1; }
  BOUND(an);
  v_oom_at = 0;
  if (r == 0) {
    VASSERT(CLEAN() && verified == 1 && nonce_ok, "success only with a verified voucher");
    VASSERT(same(&pin, &PIN), "the pinned certificate is returned");
    free_binary_array_content(&pin);
    VWITNESS("verified");
  } else {
    VASSERT(r < 0, "0 or negative");
    VASSERT(pin.array == NULL, "a failure hands out no pinned certificate");
    VASSERT(!CLEAN() || !nonce_ok, "without failure the verification succeeds");
    VWITNESS("failed");
  }
  released(live);
}
VIS void h_enrol(void) {
  setup();
  int live = v_live, r, an = v_alloc_n;
  struct BinaryArray cert, key;
  cert.array = key.array = NULL; cert.length = key.length = 0;
  try { r = post_sign_cert(&PC, &RC, &MC, &cert, &key); } catch (const std::exception &e) { r = -1; }
  BOUND(an);
  v_oom_at = 0;
  if (r == 0) {
    VASSERT(CLEAN() && sent == 1 && verified == 1 && enrolled == 1 && answer_ok && nonce_ok && enroll_ok, "success only after bootstrap and enrolment");
    VASSERT(same(&cert, &ENROLLED), "the certificate is the answered one");
    VASSERT(same(&key, &KEY), "the key is the new one");
    VWITNESS("enrolled");
  } else {
    VASSERT(r < 0, "0 or negative");
    VASSERT(!CLEAN() || !answer_ok || !nonce_ok || !enroll_ok || MISSING, "without failure the enrolment succeeds");
    if (enrolled == 1) VWITNESS("enrolment refused");
    VWITNESS("failed");
  }
  free_binary_array_content(&cert);
  free_binary_array_content(&key);
  released(live);
}
