/* C17, C18, C19: signed messages and certificate chains, on the crypto library's contracts */
#include "osslmodel.h"
#ifndef SHAPES
#define SHAPES 4
#endif
/* absent, empty, and filled lists */
static struct BinaryArrayList *a_list(int how) { return mk_list(how - 1, NULL); }
static const int FL[][2] = {{0, 0}, {0, 1}, {1, 0}, {1, 1}, {0, 2}, {2, 0}, {0, 7}};
static int unknown;
static struct BinaryArrayList *a_store(void) {
  int how = (int)nd_pick(0, 9);
  if (how < 2) return mk_list(how - 1, NULL);
  if (how == 9) { return mk_list(1, FL[1] + 1); }
  unknown = how - 2 >= 4;
  return mk_list(2, FL[how - 2]);
}
static struct BinaryArray in_a, cert_b, key_b;
static struct BinaryArrayList *lc, *ls;
static void faults(int mode, int steps, int allocs) {
  if (mode == 1) st_fail = (int)nd_range(1, (size_t)steps);
  if (mode == 2) v_oom_at = (int)nd_range(1, (size_t)allocs);
}
static void end(int steps) {
  VASSERT(v_live == 0, "every library object and buffer but the result is released");
  VASSERT(st_n <= steps, "BOUND number of library calls");
}
/* ---- C17 */
static bool cv_good, cv_called;
static uint8_t *content_b;
static size_t content_n;
static int nsig;
static uint8_t *sig_b[2];
int CMS_verify(CMS_ContentInfo *c, STACK_OF(X509) *certs, X509_STORE *store, BIO *dcont, BIO *out, unsigned int flags) {
  VASSERT(c != NULL && c->len == in_a.length && bytes_same(c->der, in_a.array, c->len), "the given message is verified");
  VASSERT(stack_is((const OPENSSL_STACK *)certs, lc), "with exactly the given certificates");
  VASSERT(store_is(store, ls), "with exactly the given trust store");
  VASSERT(dcont == NULL, "the content is the message's own");
  VASSERT((flags & ~(unsigned)CMS_BINARY) == (ls == NULL ? CMS_NO_SIGNER_CERT_VERIFY : 0), "chain checking is skipped only without a trust store");
  VASSERT(!cv_called, "verified once");
  cv_called = true;
  if (out) b_add(out, content_b, content_n);
  if (!cv_good) return 0;
  c->ok = true;
  for (int i = 0; i < nsig; i++) c->sig[c->ns++] = x_new(sig_b[i], (size_t)(i + 1));
  return 1;
}
static void verify(int mode) {
  in_a = nd_arr(mode ? 2 : nd_pick(0, 2));
  int bad = mode ? 0 : (int)nd_pick(0, 2);
  if (mode) { static const int f[3] = {0, 1, 0}; lc = mk_list(2, NULL); ls = mk_list(nd_pick(0, 1) ? 3 : -1, f); }
  else { lc = a_list((int)nd_pick(0, 3)); ls = a_store(); }
  cv_good = mode || nd_pick(0, 1);
  content_n = mode ? 2 : nd_pick(0, 2);
  content_b = nd_buf(content_n);
  nsig = mode ? 2 : (int)nd_pick(0, 2);
  for (int i = 0; i < 2; i++) sig_b[i] = nd_buf((size_t)(i + 1));
  bool want_certs = mode || nd_pick(0, 1);
  uint8_t *data = NULL;
  struct BinaryArrayList *out = NULL;
  faults(mode, 30, 16);
  ssize_t r = crypto_verify_cms(bad == 1 ? NULL : &in_a, lc, ls, bad == 2 ? NULL : &data, want_certs ? &out : NULL);
  bool should = bad == 0 && in_a.length > 0 && cv_good && !unknown;
  if (r >= 0) {
    VASSERT(should, "content only after the signature verified");
    VASSERT(cv_called && cv_good, "content only after the signature verified");
    VASSERT((size_t)r == content_n && bytes_same(data, content_b, content_n), "the verified content");
    if (want_certs && nsig && !st_hit) {
      VASSERT(out != NULL, "the signers' certificates are given");
      struct dl_list *p = out->list.next;
      for (int i = 0; i < nsig; i++, p = p->next) {
        VASSERT(p != &out->list, "every signer's certificate is given");
        struct BinaryArrayList *e = dl_list_entry(p, struct BinaryArrayList, list);
        VASSERT(e->length == (size_t)(i + 1) && bytes_same(e->arr, sig_b[i], e->length), "the signers' certificates in order");
      }
      VASSERT(p == &out->list, "only signers' certificates are given");
    } else if (!st_hit) VASSERT(out == NULL, "no certificates");
    v_free(data);
    free_array_list(out);
    if (content_n == 2) VWITNESS("verified");
  } else {
    VASSERT(!should || st_hit || v_oom_hit, "a good message is accepted");
    VASSERT(data == NULL, "no content on failure");
    VASSERT(out == NULL, "no certificates on failure");
    if (cv_called && !cv_good) VWITNESS("signature refused");
    if (unknown) VWITNESS("unknown store element");
    if (st_hit) VWITNESS("library failure");
    if (v_oom_hit) VWITNESS("out of memory");
  }
  end(30);
}
void h_verify(void) { verify(0); }
void h_verify_step(void) { verify(1); }
void h_verify_oom(void) { verify(2); }

/* ---- C18 */
static int key_type;
static bool cs_called;
static uint8_t *cms_b;
static size_t cms_n;
CMS_ContentInfo *CMS_sign(X509 *sc, EVP_PKEY *k, STACK_OF(X509) *certs, BIO *data, unsigned int flags) {
  VASSERT(sc != NULL && sc->refs > 0 && sc->len == cert_b.length && bytes_same(sc->der, cert_b.array, sc->len), "signed with the given certificate");
  VASSERT(k != NULL && k->refs > 0 && k->len == key_b.length && bytes_same(k->der, key_b.array, k->len), "signed with the given key");
  VASSERT(k->type == key_type, "the key is of the expected type");
  VASSERT(stack_is((const OPENSSL_STACK *)certs, lc), "all additional certificates are included");
  VASSERT(data != NULL && b_is(data, in_a.array, in_a.length), "exactly the given content is signed");
  VASSERT((flags & (CMS_DETACHED | CMS_NOCERTS | CMS_TEXT | CMS_PARTIAL | CMS_STREAM)) == 0 && (flags & CMS_BINARY), "the content is embedded unchanged");
  cs_called = true;
  if (step()) return NULL;
  CMS_ContentInfo *c = o_new(sizeof *c);
  c->out = cms_b; c->outlen = cms_n;
  return c;
}
static void sign(int mode) {
  int fn = (int)nd_pick(0, 2);
  int bad = mode ? 0 : (int)nd_pick(0, 6);
  in_a = nd_arr(mode ? 2 : nd_pick(0, 3));
  cert_b = nd_arr(bad == 5 ? 0 : 2); key_b = nd_arr(bad == 6 ? 0 : 1);
  lc = mode ? mk_list(2, NULL) : a_list((int)nd_pick(0, 3));
  cms_n = 3; cms_b = nd_buf(3);
  key_type = fn == 0 ? EVP_PKEY_EC : fn == 1 ? EVP_PKEY_RSA : -1;
  uint8_t *out = NULL, *d = bad == 1 ? NULL : in_a.array, *c = bad == 2 ? NULL : cert_b.array, *k = bad == 3 ? NULL : key_b.array, **o = bad == 4 ? NULL : &out;
  faults(mode, 16, 4);
  ssize_t r = fn == 0   ? crypto_sign_eccms(d, in_a.length, c, cert_b.length, k, key_b.length, lc, o)
              : fn == 1 ? crypto_sign_rsacms(d, in_a.length, c, cert_b.length, k, key_b.length, lc, o)
                        : crypto_sign_cms(d, in_a.length, c, cert_b.length, k, key_b.length, lc, o);
  if (r >= 0) {
    VASSERT(bad == 0 && cs_called && !st_hit && !v_oom_hit, "a message only when every step succeeded");
    VASSERT((size_t)r == cms_n && bytes_same(out, cms_b, cms_n), "the signed message is returned");
    v_free(out);
    VWITNESS("signed");
  } else {
    VASSERT(bad || st_hit || v_oom_hit, "a message when nothing failed");
    VASSERT(out == NULL, "no message on failure");
    if (st_hit) VWITNESS("library failure");
    if (v_oom_hit) VWITNESS("out of memory");
    if (bad) VWITNESS("refused");
  }
  end(16);
}
void h_sign(void) { sign(0); }
void h_sign_step(void) { sign(1); }
void h_sign_oom(void) { sign(2); }

/* ---- C19: chains whose links (is each certificate signed by the next?) may be good or bad */
static bool bc_called, bc_bad, anchored, chosen;
static int chain_n;
static bool link_ok[3], root_self;
static X509 *ch[4];
static void target_is(X509 *t) { VASSERT(t != NULL && t->refs > 0 && t->len == cert_b.length && bytes_same(t->der, cert_b.array, t->len), "the chain is for the given certificate"); }
/* the chain the library finds: certificates of the list, and with a store an end from the store */
static int find_chain(X509 *t, const OPENSSL_STACK *certs, X509_STORE *store) {
  VASSERT(stack_is(certs, lc), "with exactly the given certificates");
  VASSERT(store_is(store, ls), "with exactly the given trust store");
  int n = 0;
  if (chain_n < 1) { bc_bad = true; return -1; }
  ch[n++] = t;
  for (int i = 0; certs && i < certs->n && n < chain_n; i++) ch[n++] = (X509 *)certs->d[i];
  if (store) {
    X509 *a = NULL;
    for (int i = 0; i < store->n; i++) if (store->type[i] == 0) a = store->p[i];
    if (a == NULL) { bc_bad = true; return -1; }
    ch[n++] = a;
    anchored = true;
  } else {
    /* without a store: the chain ends anywhere */
    anchored = n > 1;
    if (!anchored) for (int i = 0; certs && i < certs->n; i++) {
      const X509 *c = certs->d[i];
      if (c->len == t->len && bytes_same(c->der, t->der, t->len)) anchored = true;
    }
  }
  chosen = true;
  for (int i = 0; i + 1 < n; i++) if (!link_ok[i]) bc_bad = true;
  if (!anchored) bc_bad = true;
  return n;
}
STACK_OF(X509) *X509_build_chain(X509 *t, STACK_OF(X509) *certs, X509_STORE *store, int self, OSSL_LIB_CTX *ctx, const char *pq) {
  target_is(t);
  VASSERT(ctx == NULL && pq == NULL, "BOUND default library context");
  bc_called = true;
  int n = find_chain(t, (const OPENSSL_STACK *)certs, store);
  if (n < 0 || step()) return NULL;
  OPENSSL_STACK *s = o_new(sizeof *s);
  /* building a chain matches names only; a self-signed end is left out unless asked for */
  for (int i = 0; i < n; i++) { if (i == n - 1 && root_self && !self) break; ch[i]->refs++; s->d[s->n++] = ch[i]; }
  return (STACK_OF(X509) *)s;
}
static EVP_PKEY *key_of(X509 *x) {
  VASSERT(x != NULL && x->refs > 0, "alive");
  if (step()) return NULL;
  if (x->pubkey == NULL) x->pubkey = k_new(NULL, 0, EVP_PKEY_EC);
  return x->pubkey;
}
EVP_PKEY *X509_get0_pubkey(const X509 *x) { return key_of((X509 *)x); }
EVP_PKEY *X509_get_pubkey(X509 *x) { EVP_PKEY *k = key_of(x); if (k) k->refs++; return k; }
int X509_verify(X509 *x, EVP_PKEY *k) {
  VASSERT(x != NULL && x->refs > 0 && k != NULL && k->refs > 0, "alive");
  if (step()) return -1;
  for (int i = 0; i < 4 && ch[i]; i++) {
    if (ch[i] != x) continue;
    if (i + 1 < 4 && ch[i + 1] && ch[i + 1]->pubkey == k) return link_ok[i];
    if (x->pubkey == k && root_self && (i == 3 || !ch[i + 1])) return 1;
  }
  return 0;
}
int X509_cmp(const X509 *a, const X509 *b) { VASSERT(a != NULL && b != NULL && a->refs > 0 && b->refs > 0, "alive"); return a->len == b->len && bytes_same(a->der, b->der, a->len) ? 0 : 1; }
/* the other way: a verification of its own */
struct x509_store_ctx_st { X509 *t; const OPENSSL_STACK *untrusted, *trusted; X509_STORE *store; };
X509_STORE_CTX *X509_STORE_CTX_new(void) { if (step()) return NULL; return o_new(sizeof(X509_STORE_CTX)); }
X509_STORE_CTX *X509_STORE_CTX_new_ex(OSSL_LIB_CTX *c, const char *q) { (void)c; (void)q; return X509_STORE_CTX_new(); }
void X509_STORE_CTX_free(X509_STORE_CTX *c) { if (c) o_free(c); }
void X509_STORE_CTX_cleanup(X509_STORE_CTX *c) { (void)c; }
int X509_STORE_CTX_init(X509_STORE_CTX *c, X509_STORE *s, X509 *t, STACK_OF(X509) *u) { if (step()) return 0; c->store = s; c->t = t; c->untrusted = (const OPENSSL_STACK *)u; return 1; }
void X509_STORE_CTX_set0_trusted_stack(X509_STORE_CTX *c, STACK_OF(X509) *u) { c->trusted = (const OPENSSL_STACK *)u; }
int X509_STORE_CTX_get_error(const X509_STORE_CTX *c) { (void)c; return 1; }
const char *X509_verify_cert_error_string(long n) { (void)n; return "e"; }
int X509_verify_cert(X509_STORE_CTX *c) {
  target_is(c->t);
  bc_called = true;
  int n = find_chain(c->t, c->store ? c->untrusted : c->trusted, c->store);
  if (step()) return -1;
  return n > 0 && !bc_bad;
}
static void chain(int mode) {
  int bad = mode ? 0 : (int)nd_pick(0, 3);
  cert_b = nd_arr(bad == 3 ? 0 : nd_pick(1, 2));
  if (mode) { static const int f[3] = {0, 1, 0}; lc = mk_list(2, NULL); ls = nd_pick(0, 1) ? mk_list(3, f) : NULL; }
  else { lc = a_list(bad == 2 ? 0 : (int)nd_pick(1, 3)); ls = a_store(); }
  chain_n = mode ? 3 : (int)nd_pick(0, 3);
  for (int i = 0; i < 3; i++) link_ok[i] = mode || nd_bool();
  root_self = nd_pick(0, 1);
  faults(mode, 60, 12);
  int r = crypto_verify_cert(bad == 1 ? NULL : cert_b.array, cert_b.length, lc, ls);
  if (r == 0) {
    VASSERT(bad == 0 && !unknown, "success only for well-formed input");
    VASSERT(bc_called && chosen && !bc_bad, "success only when the chain was built, its signatures hold and it ends in a given certificate");
    VASSERT(!st_hit && !v_oom_hit, "success only when every step succeeded");
    if (ls) VWITNESS("chain built");
    else VWITNESS("chain without a store");
  } else {
    VASSERT(r < 0, "failure is negative");
    VASSERT(bad || unknown || bc_bad || st_hit || v_oom_hit, "success when the chain was built");
    if (bc_called && chain_n < 1) VWITNESS("no chain");
    if (chosen && anchored && !st_hit) VWITNESS("bad signature");
    if (chosen && !anchored) VWITNESS("ends elsewhere");
    if (unknown) VWITNESS("unknown store element");
    if (st_hit) VWITNESS("library failure");
    if (v_oom_hit) VWITNESS("out of memory");
  }
  end(60);
}
void h_chain(void) { chain(0); }
void h_chain_step(void) { chain(1); }
void h_chain_oom(void) { chain(2); }
