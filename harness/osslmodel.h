/* The crypto library's operations as their documented contracts: every object is counted and reference-counted, what each call
 * was given is recorded, and any one call may fail in its documented ways (the harness chooses which). */
#ifndef OSSLMODEL_H
#define OSSLMODEL_H
#include "reqmodel.h"
#include <openssl/cms.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include "voucher/keyvalue.h"

static int st_n, st_fail, st_mode;
static bool st_hit;
/* does this library call fail? */
static bool step(void) { if (++st_n != st_fail) return false; st_hit = true; return true; }
static void *o_new(size_t n) { struct quiet q = q_on(); void *p = v_calloc(1, n); q_off(q); return p; }
static void o_free(void *p) { v_free(p); }
static uint8_t *dup_u(const void *p, size_t n) { uint8_t *d = u_malloc(n + 1); memcpy(d, p, n); d[n] = 0; return d; }
#define NE 4
struct X509_name_st { int n; const char *k[NE]; const uint8_t *v[NE]; int type[NE]; bool own; };
struct x509_st {
  int refs;
  const uint8_t *der; size_t len;         /* as decoded */
  const uint8_t *out; size_t outlen;      /* as encoded after a change */
  bool fresh;
  X509_NAME subject, issuer;
  const struct asn1_string_st *serial;
  bool sn_set; uint64_t sn;
  long version; bool version_set;
  struct asn1_string_st *nb, *na;
  EVP_PKEY *pubkey;
  const char *bc; int nbc;
  const uint8_t *sigkey; size_t sigkeylen; bool is_signed, verified;
  X509_NAME sub_at_sign, iss_at_sign;
};
struct X509_crl_st { const uint8_t *der; size_t len; int refs; };
struct evp_pkey_st { const uint8_t *der; size_t len; int type, refs; bool params; };
struct bio_st { BUF_MEM m; uint8_t buf[8]; bool file; };
#define NS 6
struct stack_st { int n; const void *d[NS]; };
struct x509_store_st { int n; int type[NS]; void *p[NS]; };
struct CMS_ContentInfo_st { const uint8_t *der; size_t len; const uint8_t *out; size_t outlen; int ns; X509 *sig[NS]; bool ok; };

unsigned long ERR_get_error(void) { return 1; }
char *ERR_error_string(unsigned long e, char *b) { (void)e; (void)b; return (char *)"e"; }
const char *ERR_reason_error_string(unsigned long e) { (void)e; return "e"; }
void CRYPTO_free(void *p, const char *f, int l) { (void)f; (void)l; v_free(p); }
/* encoding: the library allocates the buffer */
static int o_enc(const uint8_t *d, size_t n, unsigned char **out) {
  VASSERT(out != NULL && *out == NULL, "the library allocates the buffer");
  struct quiet q = q_on();
  *out = v_malloc(n ? n : 1);
  q_off(q);
  memcpy(*out, d, n);
  return (int)n;
}
/* ---- certificates */
static X509 *x_new(const void *d, size_t n) { X509 *x = o_new(sizeof *x); x->refs = 1; if (d) { x->der = dup_u(d, n); x->len = n; } return x; }
X509 *d2i_X509(X509 **a, const unsigned char **in, long len) {
  if (step() || in == NULL || *in == NULL || len <= 0) return NULL;
  X509 *x = x_new(*in, (size_t)len);
  *in += len;
  if (a) { VASSERT(*a == NULL, "BOUND certificates are decoded into new objects"); *a = x; }
  return x;
}
X509 *X509_new(void) { if (step()) return NULL; X509 *x = x_new(NULL, 0); x->fresh = true; return x; }
static void pkey_free(EVP_PKEY *k);
static void o_str_free(struct asn1_string_st *s) { if (s) o_free(s); }
void X509_free(X509 *x) {
  if (x == NULL) return;
  VASSERT(x->refs > 0, "released once");
  if (--x->refs == 0) { pkey_free(x->pubkey); o_str_free(x->nb); o_str_free(x->na); o_free(x); }
}
int X509_up_ref(X509 *x) { x->refs++; return 1; }
int i2d_X509(const X509 *x, unsigned char **out) {
  VASSERT(x->refs > 0, "alive");
  if (step()) return -1;
  if (x->der != NULL && !x->is_signed) return o_enc(x->der, x->len, out);
  if (x->out == NULL) { X509 *y = (X509 *)x; y->outlen = 2; y->out = nd_buf(2); }
  return o_enc(x->out, x->outlen, out);
}
X509_CRL *d2i_X509_CRL(X509_CRL **a, const unsigned char **in, long len) {
  if (step() || in == NULL || *in == NULL || len <= 0) return NULL;
  X509_CRL *x = o_new(sizeof *x);
  x->refs = 1; x->der = dup_u(*in, (size_t)len); x->len = (size_t)len;
  *in += len;
  if (a) *a = x;
  return x;
}
void X509_CRL_free(X509_CRL *x) { if (x == NULL) return; VASSERT(x->refs > 0, "released once"); if (--x->refs == 0) o_free(x); }
int X509_CRL_up_ref(X509_CRL *x) { x->refs++; return 1; }
/* ---- keys */
static EVP_PKEY *k_new(const void *d, size_t n, int type) { EVP_PKEY *k = o_new(sizeof *k); k->refs = 1; k->type = type; if (d) { k->der = dup_u(d, n); k->len = n; } return k; }
static void pkey_free(EVP_PKEY *k) { if (k == NULL) return; VASSERT(k->refs > 0, "released once"); if (--k->refs == 0) o_free(k); }
void EVP_PKEY_free(EVP_PKEY *k) { pkey_free(k); }
int EVP_PKEY_up_ref(EVP_PKEY *k) { k->refs++; return 1; }
EVP_PKEY *d2i_PrivateKey(int type, EVP_PKEY **a, const unsigned char **in, long len) {
  if (step() || in == NULL || *in == NULL || len <= 0) return NULL;
  EVP_PKEY *k = k_new(*in, (size_t)len, type);
  *in += len;
  if (a) *a = k;
  return k;
}
EVP_PKEY *d2i_AutoPrivateKey(EVP_PKEY **a, const unsigned char **in, long len) { return d2i_PrivateKey(-1, a, in, len); }
int i2d_PrivateKey(const EVP_PKEY *k, unsigned char **out) { VASSERT(k->refs > 0 && !k->params, "alive"); if (step()) return -1; return o_enc(k->der, k->len, out); }
/* ---- stacks */
OPENSSL_STACK *OPENSSL_sk_new_null(void) { if (step()) return NULL; return o_new(sizeof(OPENSSL_STACK)); }
int OPENSSL_sk_num(const OPENSSL_STACK *s) { return s ? s->n : -1; }
void *OPENSSL_sk_value(const OPENSSL_STACK *s, int i) { return s == NULL || i < 0 || i >= s->n ? NULL : (void *)s->d[i]; }
int OPENSSL_sk_push(OPENSSL_STACK *s, const void *p) {
  if (s == NULL || step()) return 0;
  VASSERT(s->n < NS, "BOUND stack size");
  s->d[s->n++] = p;
  return s->n;
}
void OPENSSL_sk_free(OPENSSL_STACK *s) { if (s) o_free(s); }
void *OPENSSL_sk_pop(OPENSSL_STACK *s) { return s == NULL || s->n == 0 ? NULL : (void *)s->d[--s->n]; }
void *OPENSSL_sk_shift(OPENSSL_STACK *s) { if (s == NULL || s->n == 0) return NULL; void *p = (void *)s->d[0]; for (int i = 1; i < s->n; i++) s->d[i - 1] = s->d[i]; s->n--; return p; }
void OPENSSL_sk_pop_free(OPENSSL_STACK *s, OPENSSL_sk_freefunc f) {
  if (s == NULL) return;
  for (int i = 0; i < s->n; i++) if (s->d[i]) f((void *)s->d[i]);
  o_free(s);
}
/* ---- stores */
X509_STORE *X509_STORE_new(void) { if (step()) return NULL; return o_new(sizeof(X509_STORE)); }
int X509_STORE_add_cert(X509_STORE *s, X509 *x) {
  if (x == NULL || step()) return 0;
  VASSERT(s->n < NS, "BOUND store size");
  x->refs++; s->type[s->n] = 0; s->p[s->n++] = x;
  return 1;
}
int X509_STORE_add_crl(X509_STORE *s, X509_CRL *x) {
  if (x == NULL || step()) return 0;
  VASSERT(s->n < NS, "BOUND store size");
  x->refs++; s->type[s->n] = 1; s->p[s->n++] = x;
  return 1;
}
void X509_STORE_free(X509_STORE *s) {
  if (s == NULL) return;
  for (int i = 0; i < s->n; i++) { if (s->type[i]) X509_CRL_free(s->p[i]); else X509_free(s->p[i]); }
  o_free(s);
}
/* ---- memory and file streams */
static struct bio_st *b_file;
static int n_files;
const BIO_METHOD *BIO_s_mem(void) { return NULL; }
BIO *BIO_new_ex(OSSL_LIB_CTX *c, const BIO_METHOD *m) { (void)c; (void)m; if (step()) return NULL; BIO *b = o_new(sizeof *b); b->m.data = (char *)b->buf; return b; }
BIO *BIO_new(const BIO_METHOD *m) { return BIO_new_ex(NULL, m); }
int BIO_free(BIO *b) { if (b == NULL) return 0; if (b->file) n_files--; o_free(b); return 1; }
void BIO_free_all(BIO *b) { BIO_free(b); }
static void b_add(BIO *b, const void *d, size_t n) { VASSERT(b->m.length + n <= sizeof b->buf, "BOUND stream size"); memcpy(b->buf + b->m.length, d, n); b->m.length += n; }
int BIO_write(BIO *b, const void *d, int n) { if (step()) return -1; if (n <= 0) return 0; b_add(b, d, (size_t)n); return n; }
BIO *BIO_new_mem_buf(const void *d, int n) { if (step()) return NULL; BIO *b = o_new(sizeof *b); b->m.data = (char *)b->buf; b_add(b, d, n < 0 ? strlen(d) : (size_t)n); return b; }
long BIO_ctrl(BIO *b, int cmd, long l, void *p) {
  if (cmd == BIO_C_GET_BUF_MEM_PTR) { *(BUF_MEM **)p = &b->m; return 1; }
  if (cmd == BIO_CTRL_INFO) { if (p) *(char **)p = b->m.data; return (long)b->m.length; }
  if (cmd == BIO_CTRL_FLUSH) return 1;
  VASSERT(0, "BOUND stream operation"); (void)l;
  return 0;
}
/* the stream holds exactly these bytes */
static bool b_is(const BIO *b, const void *d, size_t n) { return b->m.length == n && bytes_same((const uint8_t *)b->buf, d, n); }
/* ---- what a list became */
static bool stack_is(const OPENSSL_STACK *s, const struct BinaryArrayList *l) {
  if (l == NULL) return s == NULL;
  if (s == NULL) return false;
  const struct dl_list *p = l->list.next;
  for (int i = 0; i < s->n; i++, p = p->next) {
    if (p == &l->list) return false;
    const struct BinaryArrayList *e = dl_list_entry(p, struct BinaryArrayList, list);
    const X509 *x = s->d[i];
    if (x->refs < 1 || x->len != e->length || !bytes_same(x->der, e->arr, e->length)) return false;
  }
  return p == &l->list;
}
static bool store_is(const X509_STORE *s, const struct BinaryArrayList *l) {
  if (l == NULL) return s == NULL;
  if (s == NULL) return false;
  const struct dl_list *p = l->list.next;
  for (int i = 0; i < s->n; i++, p = p->next) {
    if (p == &l->list) return false;
    const struct BinaryArrayList *e = dl_list_entry(p, struct BinaryArrayList, list);
    if (s->type[i] != e->flags) return false;
    const uint8_t *d = e->flags ? ((X509_CRL *)s->p[i])->der : ((X509 *)s->p[i])->der;
    size_t n = e->flags ? ((X509_CRL *)s->p[i])->len : ((X509 *)s->p[i])->len;
    if (n != e->length || !bytes_same(d, e->arr, n)) return false;
  }
  return p == &l->list;
}
/* uncounted list of k two-byte elements with these flags */
static struct BinaryArrayList *mk_list(int k, const int *flags) {
  if (k < 0) return NULL;
  struct quiet q = q_on();
  int live = v_live;
  struct BinaryArrayList *l = init_array_list();
  for (int i = 0; i < k; i++) { uint8_t *b = nd_buf(2); VASSERT(push_array_list(l, b, (size_t)(1 + i % 2), flags ? flags[i] : 0) == 0, "list built"); }
  v_live = live;
  q_off(q);
  return l;
}
/* ---- signed messages */
CMS_ContentInfo *d2i_CMS_ContentInfo(CMS_ContentInfo **a, const unsigned char **in, long len) {
  if (step() || in == NULL || *in == NULL || len <= 0) return NULL;
  CMS_ContentInfo *c = o_new(sizeof *c);
  c->der = dup_u(*in, (size_t)len); c->len = (size_t)len;
  *in += len;
  if (a) *a = c;
  return c;
}
void CMS_ContentInfo_free(CMS_ContentInfo *c) {
  if (c == NULL) return;
  for (int i = 0; i < c->ns; i++) X509_free(c->sig[i]);
  o_free(c);
}
int i2d_CMS_bio(BIO *b, CMS_ContentInfo *c) {
  if (step()) return 0;
  b_add(b, c->out, c->outlen);
  return 1;
}
STACK_OF(X509) *CMS_get0_signers(CMS_ContentInfo *c) {
  if (c->ns == 0 || step()) return NULL;
  OPENSSL_STACK *s = o_new(sizeof *s);
  for (int i = 0; i < c->ns; i++) s->d[s->n++] = c->sig[i];
  return (STACK_OF(X509) *)s;
}
#endif
