/* C22: every setting has the value of its own key; C23: certificate lists are loaded whole */
#include <stddef.h>
#include <stdio.h>
#include "inimodel.h"
#include "voucher/array.h"
#include "voucher/crypto.h"
#include "brski/config.h"
enum { STR, TIME, PORT, LIST };
#define O(f) offsetof(struct brski_config, f)
static const struct setting { const char *s, *k; int kind; size_t at; const char *def; } S[] = {
  {"pledge", "createdOn", TIME, O(pconf.created_on), 0}, {"pledge", "serialNumber", STR, O(pconf.serial_number), 0}, {"pledge", "nonce", STR, O(pconf.nonce), 0},
  {"pledge", "idevidKeyPath", STR, O(pconf.idevid_key_path), 0}, {"pledge", "idevidCertPath", STR, O(pconf.idevid_cert_path), 0},
  {"pledge", "idevidCACertPath", STR, O(pconf.idevid_ca_cert_path), 0}, {"pledge", "cmsSignCertPath", STR, O(pconf.cms_sign_cert_path), 0},
  {"pledge", "cmsSignKeyPath", STR, O(pconf.cms_sign_key_path), 0}, {"pledge", "cmsAdditionalCertPath", LIST, O(pconf.cms_add_certs_paths), 0},
  {"pledge", "cmsVerifyCertPath", LIST, O(pconf.cms_verify_certs_paths), 0}, {"pledge", "cmsVerifyStorePath", LIST, O(pconf.cms_verify_store_paths), 0},
  {"registrar", "bindAddress", STR, O(rconf.bind_address), "0.0.0.0"}, {"registrar", "port", PORT, O(rconf.port), 0}, {"registrar", "tlsCertPath", STR, O(rconf.tls_cert_path), 0},
  {"registrar", "tlsKeyPath", STR, O(rconf.tls_key_path), 0}, {"registrar", "tlsCAKeyPath", STR, O(rconf.tls_ca_key_path), 0}, {"registrar", "tlsCACertPath", STR, O(rconf.tls_ca_cert_path), 0},
  {"registrar", "cmsSignCertPath", STR, O(rconf.cms_sign_cert_path), 0}, {"registrar", "cmsSignKeyPath", STR, O(rconf.cms_sign_key_path), 0},
  {"registrar", "cmsAdditionalCertPath", LIST, O(rconf.cms_add_certs_paths), 0}, {"registrar", "cmsVerifyCertPath", LIST, O(rconf.cms_verify_certs_paths), 0},
  {"registrar", "cmsVerifyStorePath", LIST, O(rconf.cms_verify_store_paths), 0},
  {"masa", "bindAddress", STR, O(mconf.bind_address), "0.0.0.0"}, {"masa", "expiresOn", TIME, O(mconf.expires_on), 0}, {"masa", "port", PORT, O(mconf.port), 0},
  {"masa", "ldevidCACertPath", STR, O(mconf.ldevid_ca_cert_path), 0}, {"masa", "tlsCertPath", STR, O(mconf.tls_cert_path), 0}, {"masa", "tlsKeyPath", STR, O(mconf.tls_key_path), 0},
  {"masa", "tlsCACertPath", STR, O(mconf.tls_ca_cert_path), 0}, {"masa", "cmsSignCertPath", STR, O(mconf.cms_sign_cert_path), 0}, {"masa", "cmsSignKeyPath", STR, O(mconf.cms_sign_key_path), 0},
  {"masa", "cmsAdditionalCertPath", LIST, O(mconf.cms_add_certs_paths), 0}, {"masa", "cmsVerifyCertPath", LIST, O(mconf.cms_verify_certs_paths), 0},
  {"masa", "cmsVerifyStorePath", LIST, O(mconf.cms_verify_store_paths), 0}};
enum { NS = sizeof S / sizeof *S };
static bool can_open = true;
static int opened;
FILE *x_fopen(const char *f, const char *m) { VASSERT(strcmp(f, ini_name) == 0 && m[0] == 'r', "the given configuration file is opened to be read"); if (!can_open) return NULL; opened++; return (FILE *)&opened; }
int x_fclose(FILE *f) { VASSERT(f == (FILE *)&opened && opened == 1, "an open file is closed"); opened--; return 0; }
int x_access(const char *f, int m) { (void)m; VASSERT(strcmp(f, ini_name) == 0, "the given configuration file"); return can_open ? 0 : -1; }
static void line(const char *s, const char *k, const char *v) { ini[ini_n].s = s; ini[ini_n].k = k; ini[ini_n].v = v; ini_n++; }
static char DIST[NS][24];
/* what setting i has: 0 nothing, 1 an empty value, 2 a value of its own, 3 any value, 4 two values */
static const char *val[NS][2];
static int vals[NS];
static void distinct(int i) {
  char *d = DIST[i];
  if (S[i].kind == PORT) { d[0] = '4'; d[1] = (char)('0' + i % 10); d[2] = 0; }
  else { d[0] = S[i].s[0]; d[1] = '/'; d[2] = (char)('A' + i); d[3] = 0; }
  val[i][0] = d;
}
static void give(int i, int how) {
  vals[i] = how == 0 ? 0 : 1;
  if (how == 0) return;
  if (how == 1) val[i][0] = "";
  if (how == 2) distinct(i);
  if (how >= 3) {
    size_t n = nd_pick(1, 2);
    char *t = nd_text(n);
    if (S[i].kind == PORT) for (size_t k = 0; k < n; k++) VASSUME(t[k] >= '0' && t[k] <= '9');
    val[i][0] = t;
  }
  if (how == 4) { val[i][1] = nd_text(1); vals[i] = 2; }
}
static void write_file(void) {
  line("", "tlsCertPath", "no section");
  for (int i = 0; i < NS; i++) {
    if (i == 0 || strcmp(S[i].s, S[i - 1].s) != 0) {
      line("other", S[i].k, "other section");
      line(S[i].s, "tlsCertPat", "similar key");
      line(S[i].s, "unknownKey", "unknown key");
    }
    for (int k = 0; k < vals[i]; k++) line(S[i].s, S[i].k, val[i][k]);
  }
  line("other", "port", "77");
  line("other", "cmsVerifyStorePath", "other section");
  ini_name = "c.ini";
}
static void check_list(int i, const struct BinaryArrayList *l) {
  int want = 0;
  const struct dl_list *p = l ? l->list.next : NULL;
  for (int k = 0; k < vals[i]; k++) {
    if (val[i][k][0] == 0) continue;
    want++;
    VASSERT(l != NULL && p != &l->list, "a list setting has all its values");
    const struct BinaryArrayList *e = dl_list_entry(p, struct BinaryArrayList, list);
    VASSERT(e->length == strlen(val[i][k]) + 1 && e->arr != NULL && e->arr[e->length - 1] == 0, "a list value is a text");
    VASSERT(strcmp((const char *)e->arr, val[i][k]) == 0, "a list setting has the values of its own key, in order");
    p = p->next;
  }
  VASSERT(l == NULL || p == &l->list, "a list setting has no other values");
  if (want) VWITNESS("list");
}
static void check_config(const struct brski_config *c) {
  for (int i = 0; i < NS; i++) {
    const char *at = (const char *)c + S[i].at;
    if (S[i].kind == LIST) { check_list(i, *(struct BinaryArrayList *const *)at); continue; }
    if (S[i].kind == PORT) {
      VASSERT(*(const unsigned int *)at == (vals[i] == 0 || val[i][0][0] == 0 ? 0u : (unsigned)strtol(val[i][0], NULL, 10)), "a port is the number of its own key");
      continue;
    }
    const char *v = *(char *const *)at, *w = vals[i] ? val[i][0] : S[i].def;
    if (w == NULL || *w == 0) VASSERT(v == NULL, "a setting that is missing or empty has no value");
    else VASSERT(v != NULL && strcmp(v, w) == 0, "a setting has the value of its own key, or the default");
  }
}
static void load_check(void) {
  struct brski_config c = {0};
  write_file();
  VASSERT(load_brski_config("c.ini", &c) == 0, "the configuration is loaded");
  VASSERT(opened == 0, "the file is closed");
  VWITNESS("loaded");
  check_config(&c);
  free_config_content(&c);
  VASSERT(v_live == 0, "everything is released");
  free_config_content(&c);
}
/* one setting in every state, the others all missing, empty or present */
void h_one(void) {
  int bg = (int)nd_pick(0, 2), i = (int)nd_pick(0, NS - 1), how = (int)nd_pick(0, 4);
  for (int k = 0; k < NS; k++) give(k, k == i ? how : bg);
  load_check();
}
/* two settings in every state */
void h_two(void) {
  int bg = (int)nd_pick(0, 1) * 2, i = (int)nd_pick(0, NS - 2), j = (int)nd_pick((size_t)i + 1, NS - 1), a = (int)nd_pick(0, 2), b = (int)nd_pick(0, 2);
  if (a) a++;
  if (b) b++;
  if (a == 2) a = 1;
  if (b == 2) b = 1;
  for (int k = 0; k < NS; k++) give(k, k == i ? a : k == j ? b : bg);
  load_check();
}
/* long values */
void h_long(void) {
  int i = (int)nd_pick(0, NS - 1);
  for (int k = 0; k < NS; k++) give(k, 0);
  size_t n = S[i].kind == TIME ? 20 : S[i].kind == PORT ? 5 : nd_pick(0, 1) ? 255 : 480;
  char *t = (char *)u_malloc(n + 1);
  for (size_t k = 0; k < n; k++) t[k] = '1';
  t[n] = 0;
  t[n - 1] = S[i].kind == PORT ? '4' : nd_char();
  VASSUME(t[n - 1] != 0);
  val[i][0] = t;
  vals[i] = 1;
  load_check();
}
/* a list setting with 0..4 values, some empty */
void h_list(void) {
  static const char *const list_keys[] = {"cmsAdditionalCertPath", "cmsVerifyCertPath", "cmsVerifyStorePath"};
  (void)list_keys;
  int i = (int)nd_pick(0, NS - 1), n = (int)nd_pick(0, 4);
  if (S[i].kind != LIST) return;
  struct brski_config c = {0};
  ini_name = "c.ini";
  const char *w[4];
  int m = 0;
  for (int k = 0; k < n; k++) {
    char *t = nd_text(nd_pick(0, 1));
    if (*t) w[m++] = t;
    line("other", S[i].k, "other");
    line(S[i].s, S[i].k, t);
    line(S[i].s, "nonce", "x");
  }
  VASSERT(load_brski_config("c.ini", &c) == 0, "the configuration is loaded");
  const struct BinaryArrayList *l = *(struct BinaryArrayList *const *)((const char *)&c + S[i].at);
  const struct dl_list *p = l ? l->list.next : NULL;
  VASSERT(l != NULL || m == 0, "a list setting has all its values");
  for (int k = 0; k < m; k++, p = p->next) {
    VASSERT(p != &l->list, "a list setting has all its values");
    const struct BinaryArrayList *e = dl_list_entry(p, struct BinaryArrayList, list);
    VASSERT(e->length == 2 && strcmp((const char *)e->arr, w[k]) == 0, "a list setting has the values of its own key, in order");
  }
  VASSERT(l == NULL || p == &l->list, "a list setting has no other values");
  if (m == 4) VWITNESS("four values");
  for (int k = 0; k < NS; k++) if (k != i && S[k].kind == LIST) {
    const struct BinaryArrayList *o = *(struct BinaryArrayList *const *)((const char *)&c + S[k].at);
    VASSERT(o == NULL || o->list.next == &o->list, "other list settings are empty");
  }
  free_config_content(&c);
  VASSERT(v_live == 0, "everything is released");
}
void h_oom(void) {
  int bg = (int)nd_pick(0, 2);
  for (int k = 0; k < NS; k++) {
    give(k, bg);
    if (bg == 2 && S[k].kind == LIST) { val[k][1] = "second"; vals[k] = 2; }
  }
  struct brski_config c = {0};
  write_file();
  v_oom_at = (int)nd_range(1, 160);
  int r = load_brski_config("c.ini", &c);
  VASSERT((r == 0) == !v_oom_hit, "loading fails exactly when memory runs out");
  VASSERT(opened == 0, "the file is closed");
  if (r == 0) { check_config(&c); VWITNESS("loaded"); } else { VASSERT(v_live == 0, "a failed load keeps nothing"); VWITNESS("out of memory"); }
  v_oom_at = 0;
  free_config_content(&c);
  VASSERT(v_live == 0, "releasing after a failed load is safe and complete");
  free_config_content(&c);
}
void h_nofile(void) {
  struct brski_config c = {0};
  for (int k = 0; k < NS; k++) give(k, 2);
  write_file();
  can_open = nd_bool();
  int r = load_brski_config("c.ini", &c);
  VASSERT((r == 0) == can_open, "a missing file is an error");
  if (r) VWITNESS("missing file");
  if (r) VASSERT(v_live == 0, "nothing allocated");
  free_config_content(&c);
  VASSERT(v_live == 0 && opened == 0, "everything is released");
}

/* C23 */
static const char *path[4];
static uint8_t *cert[4];
static size_t cert_n[4];
static int paths, bad = -1, read_n;
static bool file_oom;
struct BinaryArray *file_to_x509buf(const char *f) {
  int i = -1;
  for (int k = 0; k < paths; k++) if (f == NULL || strcmp(f, path[k]) == 0) i = k;
  VASSERT(f != NULL && i >= 0, "only the configured files are read");
  read_n++;
  if (i == bad) return NULL;
  struct BinaryArray *b = (struct BinaryArray *)v_malloc(sizeof *b);
  if (b == NULL) { file_oom = true; return NULL; }
  b->array = (uint8_t *)v_malloc(cert_n[i]);
  if (b->array == NULL) { v_free(b); file_oom = true; return NULL; }
  memcpy(b->array, cert[i], cert_n[i]);
  b->length = cert_n[i];
  return b;
}
static struct BinaryArrayList *path_list(int n, bool dup) {
  int a = v_alloc_n, live = v_live;
  struct BinaryArrayList *l = init_array_list();
  static const char *const names[] = {"/a", "/a/b.crt", "c", "/dd"};
  for (int i = 0; i < n; i++) {
    path[i] = dup ? names[0] : names[i];
    cert_n[i] = dup && i ? cert_n[0] : nd_pick(1, 2);
    cert[i] = dup && i ? cert[0] : nd_buf(cert_n[i]);
    VASSERT(push_array_list(l, (uint8_t *)path[i], strlen(path[i]) + 1, i) == 0, "built");
  }
  paths = n;
  v_alloc_n = a;
  v_live = live;
  return l;
}
static void check_certs(const struct BinaryArrayList *out) {
  if (paths == 0) { VASSERT(out == NULL || out->list.next == &out->list, "no files give no certificates"); return; }
  VASSERT(out != NULL, "there is a list");
  const struct dl_list *p = out->list.next;
  for (int i = 0; i < paths; i++, p = p->next) {
    VASSERT(p != &out->list, "every file has its certificate");
    const struct BinaryArrayList *e = dl_list_entry(p, struct BinaryArrayList, list);
    VASSERT(e->length == cert_n[i], "every certificate is whole");
    for (size_t k = 0; k < cert_n[i]; k++) VASSERT(e->arr[k] == cert[i][k], "every certificate is the one in its file, in order");
    VASSERT(e->flags == 0, "a certificate from a file is one");
  }
  VASSERT(p == &out->list, "there are no other certificates");
  VWITNESS("loaded");
}
static void certs(void) {
  struct BinaryArrayList junk, *out = &junk;
  int n = (int)nd_pick(0, 5);
  bool dup = nd_bool();
  struct BinaryArrayList *l = n == 5 ? NULL : path_list(n, dup);
  if (nd_bool() && paths > 0) bad = dup ? paths - 1 : (int)nd_pick(0, (size_t)paths - 1);
#ifdef OOM
  v_oom_at = (int)nd_range(1, 24);
#endif
  int r = load_cert_files(l, &out);
  bool fail = v_oom_hit || file_oom || (bad >= 0);
  VASSERT(fail ? r < 0 : r == 0, "loading fails exactly when a file can't be loaded");
  if (r < 0) { VASSERT(out == NULL, "a failed load hands out no list"); VASSERT(v_live == 0, "a failed load keeps nothing"); VWITNESS("failed"); }
  else check_certs(out);
  free_array_list(out);
  VASSERT(v_live == 0, "releasing the result is safe and complete");
}
void h_certs(void) { certs(); }
