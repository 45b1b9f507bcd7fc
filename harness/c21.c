/* C21: certificate and key conversions, on the crypto library's contracts */
#include "osslmodel.h"
static void end(int steps) {
  VASSERT(v_live == 0, "every library object, file and buffer but the result is released");
  VASSERT(st_n <= steps, "BOUND number of library calls");
}
static void faults(int mode, int steps, int allocs) {
  if (mode == 1) st_fail = (int)nd_range(1, (size_t)steps);
  if (mode == 2) v_oom_at = (int)nd_range(1, (size_t)allocs);
}
/* ---- files */
static const char *want_name;
static bool want_write, wrote;
static uint8_t *file_b;
static size_t file_n;
struct o_file { int open; };
FILE *x_fopen(const char *name, const char *mode) {
  VASSERT(strcmp(name, want_name) == 0, "the given file is opened");
  VASSERT((mode[0] == 'w') == want_write && mode[0] != 'a', "opened for the right purpose");
  if (step()) return NULL;
  struct o_file *f = o_new(sizeof *f);
  f->open = 1;
  return (FILE *)f;
}
int x_fclose(FILE *f) { VASSERT(f != NULL && ((struct o_file *)f)->open == 1, "an open file is closed"); o_free(f); return 0; }
X509 *PEM_read_X509(FILE *f, X509 **a, pem_password_cb *cb, void *u) { (void)cb; (void)u; VASSERT(((struct o_file *)f)->open == 1 && a == NULL, "open"); return step() ? NULL : x_new(file_b, file_n); }
EVP_PKEY *PEM_read_PrivateKey(FILE *f, EVP_PKEY **a, pem_password_cb *cb, void *u) { (void)cb; (void)u; VASSERT(((struct o_file *)f)->open == 1 && a == NULL, "open"); return step() ? NULL : k_new(file_b, file_n, 6); }
static bool is_file(const uint8_t *d, size_t n) { return n == file_n && bytes_same(d, file_b, n); }
int PEM_write_X509(FILE *f, const X509 *x) { VASSERT(((struct o_file *)f)->open == 1, "open"); VASSERT(x->refs > 0 && is_file(x->der, x->len), "exactly the given certificate is written"); if (step()) return 0; wrote = true; return 1; }
int PEM_write_PrivateKey(FILE *f, const EVP_PKEY *k, const EVP_CIPHER *c, const unsigned char *kk, int kl, pem_password_cb *cb, void *u) {
  (void)kk; (void)kl; (void)cb; (void)u; (void)c;
  VASSERT(((struct o_file *)f)->open == 1, "open");
  VASSERT(k->refs > 0 && is_file(k->der, k->len), "exactly the given key is written");
  if (step()) return 0;
  wrote = true;
  return 1;
}
BIO *BIO_new_file(const char *name, const char *mode) {
  VASSERT(strcmp(name, want_name) == 0 && mode[0] == 'w', "the given file is opened");
  if (step()) return NULL;
  BIO *b = o_new(sizeof *b);
  b->file = true; n_files++;
  return b;
}
int SMIME_write_CMS(BIO *b, CMS_ContentInfo *c, BIO *d, int flags) { (void)flags; VASSERT(b->file && d == NULL && is_file(c->der, c->len), "exactly the given message is written"); if (step()) return 0; wrote = true; return 1; }

/* ---- decoding, encoding, copying */
static void conv(int mode) {
  struct BinaryArray a = nd_arr(mode ? 2 : nd_pick(0, 2));
  int fn = (int)nd_pick(0, 5);
  bool bad = a.length == 0;
  faults(mode, 4, 2);
  if (fn < 4) {
    void *c = fn == 0 ? crypto_cert2context(a.array, a.length) : fn == 1 ? crypto_eckey2context(a.array, a.length)
            : fn == 2 ? crypto_rsakey2context(a.array, a.length) : crypto_key2context(a.array, a.length);
    if (c == NULL) VASSERT(bad || st_hit, "decoded when the library decodes it");
    else {
      VASSERT(!st_hit, "nothing on failure");
      if (fn == 0) { X509 *x = c; VASSERT(x->len == a.length && bytes_same(x->der, a.array, x->len), "exactly the given certificate"); }
      else {
        EVP_PKEY *k = c;
        VASSERT(k->len == a.length && bytes_same(k->der, a.array, k->len), "exactly the given key");
        VASSERT(k->type == (fn == 1 ? EVP_PKEY_EC : fn == 2 ? EVP_PKEY_RSA : -1), "key type");
      }
      if (fn) crypto_free_keycontext(c); else crypto_free_certcontext(c);
      VWITNESS("decoded");
    }
  } else {
    X509 *x = bad ? NULL : x_new(a.array, a.length);
    if (fn == 4) {
      struct BinaryArray *r = crypto_cert2buf(x);
      if (r) { VASSERT(!bad && !st_hit && !v_oom_hit && arr_same(r, &a), "exactly the encoded certificate"); free_binary_array(r); VWITNESS("encoded"); }
      else VASSERT(bad || st_hit || v_oom_hit, "encoded when nothing failed");
    } else {
      X509 *r = crypto_copycert(x);
      if (r) {
        VASSERT(!bad && !st_hit && r != x && r->len == a.length && bytes_same(r->der, a.array, r->len), "an equal independent certificate");
        crypto_free_certcontext(r);
        VWITNESS("copied");
      } else VASSERT(bad || st_hit, "copied when nothing failed");
    }
    crypto_free_certcontext(x);
  }
  crypto_free_certcontext(NULL);
  crypto_free_keycontext(NULL);
  if (st_hit) VWITNESS("library failure");
  end(4);
}
void h_conv(void) { conv(0); }
void h_conv_step(void) { conv(1); }
void h_conv_oom(void) { conv(2); }

static void files(int mode) {
  want_name = nd_text(2);
  file_n = 2; file_b = nd_buf(2);
  struct BinaryArray a = {file_b, 2};
  int fn = (int)nd_pick(0, 4);
  want_write = fn > 1;
  faults(mode, 5, 2);
  if (fn < 2) {
    struct BinaryArray *r = fn ? file_to_keybuf(want_name) : file_to_x509buf(want_name);
    if (r) { VASSERT(!st_hit && !v_oom_hit && is_file(r->array, r->length), "exactly what the file holds"); free_binary_array(r); VWITNESS("read"); }
    else VASSERT(st_hit || v_oom_hit, "read when nothing failed");
  } else {
    int r = fn == 2 ? cmsbuf_to_file(&a, want_name) : fn == 3 ? certbuf_to_file(&a, want_name) : keybuf_to_file(&a, want_name);
    if (r >= 0) { VASSERT(!st_hit && wrote, "success only when everything was written"); VWITNESS("written"); }
    else VASSERT(st_hit || v_oom_hit, "written when nothing failed");
  }
  VASSERT(n_files == 0, "files are closed");
  if (st_hit) VWITNESS("library failure");
  end(5);
}
void h_files(void) { files(0); }
void h_files_step(void) { files(1); }
void h_files_oom(void) { files(2); }

/* ---- metadata */
struct X509_name_entry_st { int nid; ASN1_STRING s; };
#define NN 3
static X509_NAME_ENTRY ent[2][NN];
static int n_ent[2];
static X509 *cur;
static ASN1_INTEGER serial_o;
static uint64_t serial_v;
static bool serial_fits;
ASN1_INTEGER *X509_get_serialNumber(X509 *x) { VASSERT(x == cur, "the given certificate"); if (step()) return NULL; return &serial_o; }
int ASN1_INTEGER_get_uint64(uint64_t *p, const ASN1_INTEGER *a) { VASSERT(a == &serial_o, "the certificate's number"); if (!serial_fits) return 0; *p = serial_v; return 1; }
X509_NAME *X509_get_issuer_name(const X509 *x) { VASSERT(x == cur, "the given certificate"); return step() ? NULL : &cur->issuer; }
X509_NAME *X509_get_subject_name(const X509 *x) { VASSERT(x == cur, "the given certificate"); return step() ? NULL : &cur->subject; }
static int which(const X509_NAME *n) { VASSERT(n == &cur->issuer || n == &cur->subject, "a name of the certificate"); return n == &cur->subject; }
int X509_NAME_get_index_by_NID(const X509_NAME *n, int nid, int last) {
  int w = which(n);
  for (int i = last < 0 ? 0 : last + 1; i < n_ent[w]; i++) if (ent[w][i].nid == nid) return i;
  return -1;
}
int X509_NAME_entry_count(const X509_NAME *n) { return n_ent[which(n)]; }
X509_NAME_ENTRY *X509_NAME_get_entry(const X509_NAME *n, int i) { int w = which(n); return i < 0 || i >= n_ent[w] ? NULL : &ent[w][i]; }
ASN1_STRING *X509_NAME_ENTRY_get_data(const X509_NAME_ENTRY *e) { return e ? (ASN1_STRING *)&e->s : NULL; }
int ASN1_STRING_to_UTF8(unsigned char **out, const ASN1_STRING *s) {
  if (s == NULL || step()) return -1;
  struct quiet q = q_on();
  *out = v_malloc((size_t)s->length + 1);
  q_off(q);
  memcpy(*out, s->data, (size_t)s->length);
  (*out)[s->length] = 0;
  return s->length;
}
static const int nids[] = {NID_countryName, NID_commonName, NID_serialNumber, NID_pkcs9_emailAddress, NID_title, NID_stateOrProvinceName, NID_localityName, NID_organizationName, NID_organizationalUnitName, NID_surname, NID_givenName};
static const char *names[] = {"C", "CN", "serialNumber", "emailAddress", NULL, "ST", "L", "O", "OU", "SN", "GN"};
static void mk_names(int per, int lo, int hi, bool nul) {
  for (int w = 0; w < 2; w++) {
    n_ent[w] = (int)nd_pick(0, (size_t)per);
    for (int i = 0; i < n_ent[w]; i++) {
      int k = (int)nd_pick((size_t)lo, (size_t)hi);
      ent[w][i].nid = nids[k];
      ent[w][i].s.length = 1 + i % 2;
      ent[w][i].s.data = nul ? nd_buf((size_t)ent[w][i].s.length) : (uint8_t *)nd_text((size_t)ent[w][i].s.length);
    }
  }
}
static struct keyvalue_list *kv(void) { struct quiet q = q_on(); int live = v_live; struct keyvalue_list *l = init_keyvalue_list(); v_live = live; q_off(q); return l; }
/* the list holds the first entry of every known kind, under its name, and nothing else */
static void list_check(int w, const struct keyvalue_list *l) {
  int want = 0, have = 0;
  const struct dl_list *p;
  for (p = l->list.next; p != &l->list; p = p->next) have++;
  for (int i = 0; i < n_ent[w]; i++) {
    int k = 0;
    while (nids[k] != ent[w][i].nid) k++;
    bool first = names[k] != NULL;
    for (int j = 0; j < i; j++) if (ent[w][j].nid == ent[w][i].nid) first = false;
    if (!first) continue;
    want++;
    bool seen = false;
    for (p = l->list.next; p != &l->list; p = p->next) {
      const struct keyvalue_list *e = dl_list_entry(p, struct keyvalue_list, list);
      if (strcmp(e->key, names[k]) != 0) continue;
      VASSERT(!seen, "each kind once");
      seen = true;
      VASSERT(strlen(e->value) == (size_t)ent[w][i].s.length && bytes_same((const uint8_t *)e->value, ent[w][i].s.data, (size_t)ent[w][i].s.length), "exactly the decoded name value");
    }
    VASSERT(seen, "every known name entry is found");
  }
  VASSERT(want == have, "no other name entry");
}
static void meta_(int mode, int lo, int hi, int per, bool nul) {
  struct BinaryArray a = nd_arr(2);
  cur = x_new(a.array, 2);
  serial_v = nd_u64();
  serial_fits = mode || nd_pick(0, 1);
  mk_names(per, lo, hi, nul);
  struct crypto_cert_meta m = {.serial_number = 5};
  m.issuer = kv(); m.subject = kv();
  int bad = mode ? 0 : (int)nd_pick(0, 2);
  faults(mode, 12, 24);
  int live0 = v_live;
  int r = crypto_getcert_meta(bad == 1 ? NULL : cur, bad == 2 ? NULL : &m);
  bool has_nul = false;
  if (nul) for (int w = 0; w < 2; w++) for (int i = 0; i < n_ent[w]; i++) for (int j = 0; j < ent[w][i].s.length; j++) if (ent[w][i].s.data[j] == 0) has_nul = true;
  if (r >= 0) {
    VASSERT(!bad && !v_oom_hit, "success only when every step succeeded");
    if (!st_hit) VASSERT(m.serial_number == (serial_fits ? serial_v : 0), "the certificate's number");
    list_check(0, m.issuer);
    list_check(1, m.subject);
    const char *s = crypto_getcert_serial(&m);
    bool has = false;
    for (int i = 0; i < n_ent[1] && !has; i++) if (ent[1][i].nid == NID_serialNumber) {
      has = true;
      VASSERT(s != NULL && strlen(s) == (size_t)ent[1][i].s.length && bytes_same((const uint8_t *)s, ent[1][i].s.data, strlen(s)), "the subject's serial number");
      VWITNESS("serial number");
    }
    VASSERT(has == (s != NULL), "a serial number exactly when the subject has one");
    VWITNESS("extracted");
  } else VASSERT(bad || st_hit || v_oom_hit || has_nul, "extracted when nothing failed");
  if (st_hit) VWITNESS("library failure");
  if (v_oom_hit) VWITNESS("out of memory");
  if (has_nul) VWITNESS("text with NUL");
  for (int w = 0; w < 2; w++) {
    struct keyvalue_list *l = w ? m.subject : m.issuer;
    struct dl_list *p, *n;
    for (p = l->list.next; p != &l->list; p = n) { n = p->next; struct keyvalue_list *e = dl_list_entry(p, struct keyvalue_list, list); v_free(e->key); v_free(e->value); v_free(e); }
  }
  VASSERT(v_live == live0, "everything but the result is released");
  X509_free(cur);
  end(12);
}
void h_meta(void) { meta_(0, 0, 4, 2, false); }
void h_meta_all(void) { meta_(0, 0, 10, 1, false); }
void h_meta_nul(void) { meta_(0, 1, 2, 1, true); }
void h_meta_step(void) { meta_(1, 1, 2, 2, false); }
void h_meta_oom(void) { meta_(2, 1, 2, 2, false); }
/* any list of names, also with other kinds of entries before and behind */
void h_serial(void) {
  struct quiet q = q_on();
  struct crypto_cert_meta m = {0};
  m.subject = init_keyvalue_list();
  int n = (int)nd_pick(0, 3);
  const char *want = NULL;
  static const char *K[] = {"CN", "serialNumber", "serial", "serialNumbers"};
  for (int i = 0; i < n; i++) {
    int k = (int)nd_pick(0, 3);
    char *v = nd_text((size_t)(i % 3));
    VASSERT(push_keyvalue_list(m.subject, (char *)K[k], v) == 0, "built");
    if (k == 1 && want == NULL) want = v;
  }
  q_off(q);
  const char *s = crypto_getcert_serial(&m);
  VASSERT((s == NULL) == (want == NULL), "a serial number exactly when the subject has one");
  if (s) { VASSERT(strcmp(s, want) == 0, "the subject's serial number"); VWITNESS("serial number"); }
  else VWITNESS("no serial number");
  free_keyvalue_list(m.subject);
  end(0);
}
/* ---- issuer text */
static struct BinaryArray issuer_t;
int X509_NAME_print_ex(BIO *b, const X509_NAME *n, int indent, unsigned long flags) {
  VASSERT(n == &cur->issuer && indent == 0 && flags == XN_FLAG_ONELINE, "the issuer is printed on one line");
  if (step()) return -1;
  b_add(b, issuer_t.array, issuer_t.length);
  return (int)issuer_t.length;
}
static void issuer(int mode) {
  struct BinaryArray a = nd_arr(2);
  cur = x_new(a.array, 2);
  issuer_t = nd_arr(nd_pick(0, 3));
  int bad = mode ? 0 : (int)nd_pick(0, 1);
  faults(mode, 5, 3);
  struct BinaryArray *r = crypto_getcert_issuer(bad ? NULL : cur);
  if (r) { VASSERT(!bad && !st_hit && !v_oom_hit && r->length == issuer_t.length && bytes_same(r->array, issuer_t.array, r->length), "exactly the issuer's text"); free_binary_array(r); VWITNESS("extracted"); }
  else VASSERT(bad || st_hit || v_oom_hit, "extracted when nothing failed");
  if (st_hit) VWITNESS("library failure");
  X509_free(cur);
  end(5);
}
void h_issuer(void) { issuer(0); }
void h_issuer_step(void) { issuer(1); }
void h_issuer_oom(void) { issuer(2); }
