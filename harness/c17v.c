/* C17, C18: what the voucher layer hands to signing and signature checking, and what it does with the answer */
#include "reqmodel.h"
#undef crypto_verify_cms
static struct BinaryArray cms_a, cert_a, key_a;
static const struct BinaryArrayList *lc, *ls;
static bool fail, given_out, good, empty;
static int calls, kind;
static char *text;
static size_t text_n;
static struct BinaryArrayList *out_l;
static void end(void) { VASSERT(v_live == 0, "everything but the result is released"); }

/* ---- checking */
ssize_t crypto_verify_cms(const struct BinaryArray *cms, const struct BinaryArrayList *certs, const struct BinaryArrayList *store, uint8_t **data, struct BinaryArrayList **out) {
  VASSERT(cms != NULL && arr_same(cms, &cms_a), "the given message is checked");
  VASSERT(list_same(certs, lc), "with the given certificates");
  VASSERT(list_same(store, ls), "with the given trust store");
  VASSERT(data != NULL, "content wanted");
  VASSERT(!given_out || out != NULL, "certificates wanted");
  calls++;
  if (fail) return -1;
  struct quiet q = q_on();
  if (empty) *data = NULL;
  else { *data = v_malloc(text_n + 1); memcpy(*data, text, text_n); }
  if (out) {
    uint8_t b = 7;
    *out = init_array_list();
    VASSERT(push_array_list(*out, &b, 1, 0) == 0, "list built");
    out_l = *out;
  }
  q_off(q);
  return empty ? 0 : (ssize_t)text_n;
}
static void check(bool oom) {
  cms_a = nd_arr(2);
  lc = nd_pick(0, 1) ? nd_list(1) : NULL;
  ls = nd_pick(0, 1) ? nd_list(2) : NULL;
  int how = oom ? 0 : (int)nd_pick(0, 4);
  fail = how == 1; empty = how == 2; good = how == 0;
  struct vm m = {0};
  char s[3] = {nd_char(), nd_char(), 0};
  for (int i = 0; i < 2; i++) VASSUME(s[i] > ' ' && s[i] != '"' && s[i] != '\\' && s[i] > 0);
  { char t[] = "{\"ietf-voucher:voucher\":{\"serial-number\":\"xx\"}}"; char *p = strstr(t, "xx"); p[0] = s[0]; p[1] = s[1]; if (how == 3) t[0] = 'x'; text_n = strlen(t); text = (char *)u_malloc(text_n + 1); memcpy(text, t, text_n + 1); }
  vm_str(&m, s);
  given_out = nd_pick(0, 1);
  struct BinaryArrayList *out = NULL;
  if (oom) v_oom_at = (int)nd_pick(1, 4);
  struct Voucher *v = verify_cms_voucher(how == 4 ? NULL : &cms_a, lc, ls, given_out ? &out : NULL);
  if (v) {
    VASSERT(calls == 1 && good && !v_oom_hit, "a voucher only from a verified message");
    vm_check(v, &m);
    if (given_out) { VASSERT(out != NULL && out == out_l, "the signers' certificates are handed out"); free_array_list(out); VWITNESS("verified"); }
    free_voucher(v);
  } else {
    VASSERT(!good || v_oom_hit, "a verified voucher is accepted");
    VASSERT(out == NULL, "no certificates on failure");
    if (fail) VWITNESS("signature refused");
    if (how == 3) VWITNESS("not a voucher");
    if (v_oom_hit) VWITNESS("out of memory");
  }
  end();
}
void h_check(void) { check(false); }
void h_check_oom(void) { check(true); }

/* ---- signing */
static ssize_t signer(int k, const uint8_t *data, size_t data_length, const uint8_t *cert, size_t cert_length, const uint8_t *key, size_t key_length,
                      const struct BinaryArrayList *certs, uint8_t **cms) {
  VASSERT(k == kind, "the matching signing operation");
  VASSERT(data != NULL && data_length == text_n && bytes_same(data, (const uint8_t *)text, text_n), "exactly the serialised voucher is signed");
  VASSERT(cert_length == cert_a.length && bytes_same(cert, cert_a.array, cert_length), "with the given certificate");
  VASSERT(key_length == key_a.length && bytes_same(key, key_a.array, key_length), "with the given key");
  VASSERT(list_same(certs, lc), "with all additional certificates");
  VASSERT(cms != NULL, "result wanted");
  calls++;
  *cms = NULL;
  if (fail) return -1;
  struct quiet q = q_on();
  *cms = v_malloc(2);
  q_off(q);
  memcpy(*cms, cms_a.array, 2);
  return 2;
}
ssize_t crypto_sign_eccms(const uint8_t *d, size_t dl, const uint8_t *c, size_t cl, const uint8_t *k, size_t kl, const struct BinaryArrayList *l, uint8_t **o) { return signer(0, d, dl, c, cl, k, kl, l, o); }
ssize_t crypto_sign_rsacms(const uint8_t *d, size_t dl, const uint8_t *c, size_t cl, const uint8_t *k, size_t kl, const struct BinaryArrayList *l, uint8_t **o) { return signer(1, d, dl, c, cl, k, kl, l, o); }
ssize_t crypto_sign_cms(const uint8_t *d, size_t dl, const uint8_t *c, size_t cl, const uint8_t *k, size_t kl, const struct BinaryArrayList *l, uint8_t **o) { return signer(2, d, dl, c, cl, k, kl, l, o); }
static void sign(bool oom) {
  cms_a = nd_arr(2); cert_a = nd_arr(2); key_a = nd_arr(1);
  lc = nd_pick(0, 1) ? nd_list(2) : NULL;
  kind = (int)nd_pick(0, 2);
  int how = oom ? 0 : (int)nd_pick(0, 4);
  fail = how == 1;
  struct vm m = {0};
  char s[3] = {nd_char(), nd_char(), 0};
  VASSUME(s[0] != 0);
  vm_str(&m, s);
  if (nd_pick(0, 1)) { uint8_t n = nd_u8(); struct BinaryArray a = {&n, 1}; vm_arr(&m, I_NONCE, &a); }
  int live = v_live;
  struct Voucher *v = vm_build(&m);
  struct quiet q = q_on();
  char *t = serialize_voucher(v);
  VASSERT(t != NULL, "serialised");
  text_n = strlen(t); text = (char *)u_malloc(text_n + 1); memcpy(text, t, text_n + 1);
  v_free(t);
  q_off(q);
  if (oom) v_oom_at = (int)nd_pick(1, 40);
  struct BinaryArray *c = how == 3 ? NULL : &cert_a, *k = how == 4 ? NULL : &key_a;
  struct Voucher *w = how == 2 ? NULL : v;
  struct BinaryArray *r = kind == 0 ? sign_eccms_voucher(w, c, k, lc) : kind == 1 ? sign_rsacms_voucher(w, c, k, lc) : sign_cms_voucher(w, c, k, lc);
  if (r) {
    VASSERT(how == 0 && calls == 1 && !v_oom_hit, "a message only when signing succeeded");
    VASSERT(r->length == 2 && bytes_same(r->array, cms_a.array, 2), "the signed message is returned unchanged");
    free_binary_array(r);
    VWITNESS("signed");
  } else {
    VASSERT(how || v_oom_hit, "a message when nothing failed");
    if (fail) VWITNESS("signing failed");
    if (v_oom_hit) VWITNESS("out of memory");
  }
  vm_check(v, &m);
  free_voucher(v);
  VASSERT(v_live == live, "everything but the result is released");
}
void h_vsign(void) { sign(false); }
void h_vsign_oom(void) { sign(true); }
