// C33: the command line: options, commands, input and output
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include "v.h"
#include "brski/masa/masa_server.hpp"
#include "brski/pledge/pledge_request.hpp"
#include "brski/registrar/registrar_server.hpp"
extern "C" {
#include "utils/log.h"
#include "voucher/crypto.h"
#include "voucher/keyvalue.h"
#include "voucher/serialize.h"
#include "brski/config.h"
#include "brski/pledge/pledge_utils.h"
void v_stop(void);
}
#define VIS extern "C"
#include "fake/version.h"
int brski_main(int argc, char *argv[]);

/* what is written out */
static char out[8192];
static size_t outn;
static void put(char c) { VASSERT(outn + 1 < sizeof out, "output"); out[outn++] = c; out[outn] = 0; }
static void puts_(const char *s) { VASSERT(s != NULL, "text"); while (*s) put(*s++); }
static int dummy_out, dummy_err;
VIS FILE *x_stdout, *x_stderr;
FILE *x_stdout = (FILE *)&dummy_out, *x_stderr = (FILE *)&dummy_err;
static void vput(FILE *f, const char *t, va_list ap) {
  char c;
  size_t keep = outn;
  for (; (c = *t) != 0; t++) {
    if (c != '%') { put(c); continue; }
    c = *++t;
    if (c == 's') puts_(va_arg(ap, const char *));
    else if (c == 'c') put((char)va_arg(ap, int));
    else if (c == 'd' || c == 'u' || c == 'i') { (void)va_arg(ap, int); put('0'); }
    else if (c == '%') put('%');
    else VASSERT(false, "a known conversion");
  }
  if (f != (FILE *)&dummy_out) { outn = keep; out[outn] = 0; }
}
VIS int x_fprintf(FILE *f, const char *t, ...) { va_list ap; va_start(ap, t); vput(f, t, ap); va_end(ap); return 1; }
VIS int x_printf(const char *t, ...) { va_list ap; va_start(ap, t); vput(x_stdout, t, ap); va_end(ap); return 1; }
VIS int x_vfprintf(FILE *f, const char *t, va_list ap) { vput(f, t, ap); return 1; }
VIS int x_fputs(const char *s, FILE *f) { if (f == x_stdout) puts_(s); return 1; }
VIS int x_puts(const char *s) { puts_(s); put('\n'); return 1; }
VIS int x_fputc(int c, FILE *f) { if (f == x_stdout) put((char)c); return c; }
VIS int x_putchar(int c) { put((char)c); return c; }
VIS size_t x_fwrite(const void *p, size_t s, size_t n, FILE *f) { for (size_t i = 0; i < s * n; i++) x_fputc(((const char *)p)[i], f); return n; }
VIS int x_fflush(FILE *) { return 0; }
static bool has(const char *t) { return strstr(out, t) != NULL; }
static bool printed(const char *a, const char *b) {
  const char *p = out, *l[2] = {a, b};
  for (int i = 0; i < 2; i++) {
    if (l[i] == NULL) continue;
    while (*p == '\n' || *p == ' ') p++;
    size_t n = strlen(l[i]);
    if (strncmp(p, l[i], n) != 0) return false;
    p += n;
    if (*p != 0 && *p != '\n' && *p != ' ') return false;
  }
  while (*p == '\n' || *p == ' ') p++;
  return *p == 0;
}

/* the command line, as getopt reads it (options may stand after the command) */
VIS char *optarg; VIS int optind, opterr, optopt;
char *optarg; int optind = 1, opterr = 1, optopt;
static int gnext, gsub, gargc;
static int scan(int argc, char **v, const char *os, int *ind, int *sub, int *next, int *last, char **arg, int *bad) {
  *arg = NULL;
  if (*sub == 0) {
    int j = *next;
    if (j >= argc) { *ind = *last; return -1; }
    while (j < argc && (v[j][0] != '-' || v[j][1] == 0)) j++;
    if (j >= argc) { *ind = *last; *next = argc; return -1; }
    /* operands before the option move behind it */
    char *o = v[j];
    for (int k = j; k > *last; k--) v[k] = v[k - 1];
    v[*last] = o;
    if (o[1] == '-' && o[2] == 0) { ++*last; *ind = *last; *next = argc; return -1; }
    *next = j + 1;
    *sub = 1;
  }
  char *o = v[*last], c = o[(*sub)++];
  const char *q = os + (*os == ':' || *os == '+' || *os == '-');
  while (*q && (*q != c || c == ':')) q++;
  int r = (unsigned char)c;
  if (*q == 0) { *bad = r; r = '?'; }
  else if (q[1] == ':') {
    if (o[*sub]) { *arg = o + *sub; while (o[*sub]) ++*sub; }
    else if (*next < argc) {
      char *a = v[*next];
      for (int k = *next; k > *last + 1; k--) v[k] = v[k - 1];
      v[*last + 1] = a;
      *arg = a;
      ++*next; ++*last;
      *sub = 0;
    } else { *bad = r; r = *os == ':' ? ':' : '?'; }
  }
  if (*sub == 0 || o[*sub] == 0) { *sub = 0; ++*last; }
  *ind = *last;
  return r;
}
static int glast = 1;
VIS int x_getopt(int argc, char *const argv[], const char *os) {
  if (gargc == 0) { gargc = argc; gnext = glast = 1; gsub = 0; }
  char *arg = NULL;
  int bad = 0, r = scan(argc, (char **)argv, os, &optind, &gsub, &gnext, &glast, &arg, &bad);
  optarg = arg;
  if (bad) optopt = bad;
  return r;
}
/* what the command line asks for */
enum { EPVR = 1, PREQ, VMASA, SIGN, SERIAL, REGISTRAR, MASA };
static const char *const NAMES[] = {"", "epvr", "preq", "vmasa", "sign", "serial", "registrar", "masa"};
static struct { const char *c, *i, *o, *p, *a; int d, stop, cmd; bool none; } W;
#define MAXARG 8
static char *av[MAXARG + 1], *rv[MAXARG + 1];
static int ac;
static void want(void) {
  int next = 1, sub = 0, last = 1, ind = 1, r, bad = 0;
  char *arg;
  memcpy(rv, av, sizeof rv);
  W.c = W.i = W.o = W.a = "";
  W.none = ac == 1;
  while (W.stop == 0 && (r = scan(ac, rv, ":c:i:o:p:a:dvh", &ind, &sub, &next, &last, &arg, &bad)) != -1) {
    if (r == 'c') W.c = arg; else if (r == 'i') W.i = arg; else if (r == 'o') W.o = arg; else if (r == 'p') W.p = arg; else if (r == 'a') W.a = arg;
    else if (r == 'd') W.d = 1; else W.stop = r;
  }
  if (W.stop == 0 && rv[ind] != NULL) for (int i = 1; i <= MASA; i++) if (strcmp(rv[ind], NAMES[i]) == 0) W.cmd = i;
}

/* the configuration */
static int loads, frees, quietset, levelset;
static bool loaded;
static struct brski_config *C;
static char *addr0;
static unsigned port0;
static char tls_path[] = "tls";
VIS int load_brski_config(const char *f, struct brski_config *c) {
  VASSERT(loads++ == 0, "the configuration is read once");
  VASSERT(strcmp(f, W.c) == 0, "the given configuration file is read");
  C = c;
  if (FAILS && nd_bool()) return -1;
  loaded = true;
  if (nd_bool()) { addr0 = (char *)v_malloc(5); if (addr0 == NULL) { loaded = false; return -1; } memcpy(addr0, "host", 5); }
  c->rconf.bind_address = addr0;
  c->rconf.port = port0 = nd_u32();
  c->rconf.tls_cert_path = tls_path;
  return 0;
}
VIS void free_config_content(struct brski_config *c) { if (C == NULL) return; VASSERT(c == C, "its configuration"); frees++; v_free(c->rconf.bind_address); c->rconf.bind_address = NULL; }
VIS void log_set_lock(log_lock_fn f) { VASSERT(f != NULL, "logging is locked"); }
VIS void log_set_level(uint8_t l) { levelset = 1; }
VIS void log_set_quiet(bool q) { quietset = q; }

/* the operations */
static int done[MASA + 1], failed, files, encs;
static struct BinaryArray FILEC, DOM, KEY, VOUCHER;
static char *T1, *T2;
static uint8_t pkt[2][4] = {{1, 2, 3, 4}, {5, 6, 7, 8}};
static int cert_obj;
static bool step(void) { if (FAILS && nd_bool()) { failed++; return false; } return true; }
static void op(int i) {
  VASSERT(W.cmd == i && W.stop == 0, "each command does exactly its operation");
  VASSERT(done[i]++ == 0, "once");
  if (i != SERIAL) VASSERT(loaded, "with its configuration");
  if (i == PREQ || i == SIGN || i == REGISTRAR) {
    unsigned long long p = 0;
    if (W.p) for (const char *s = W.p; *s; s++) p = p * 10 + (unsigned)(*s - '0');
    VASSERT(C->rconf.port == (p ? (unsigned)p : port0), "the port that is given or configured");
    VASSERT(*W.a ? C->rconf.bind_address && strcmp(C->rconf.bind_address, W.a) == 0 : C->rconf.bind_address == addr0, "the address that is given or configured");
  }
}
VIS struct BinaryArray *file_to_x509buf(const char *f) {
  VASSERT(f != NULL && strcmp(f, W.cmd == EPVR ? "tls" : W.i) == 0, "the given certificate file is read");
  if (!step()) return NULL;
  struct BinaryArray *a = (struct BinaryArray *)u_malloc(sizeof *a);
  *a = FILEC;
  return a;
}
VIS void free_binary_array(struct BinaryArray *a) { u_free(a); }
VIS void free_binary_array_content(struct BinaryArray *a) {}
static void outname(const char *f, const char *suffix) {
  size_t n = strlen(W.o), m = strlen(suffix);
  VASSERT(n > 0, "a file only when it is asked for");
  VASSERT(f != NULL && strlen(f) == n + m && memcmp(f, W.o, n) == 0 && memcmp(f + n, suffix, m) == 0, "the file that is asked for");
}
static char *text(const char *t) { char *s = (char *)v_malloc(strlen(t) + 1); if (s == NULL) { failed++; return NULL; } strcpy(s, t); return s; }
VIS char *voucher_pledge_request_to_base64(const struct pledge_config *p, const struct BinaryArray *c) {
  op(EPVR);
  VASSERT(p == &C->pconf && c->array == FILEC.array && c->length == FILEC.length, "a request of this pledge to this registrar");
  VASSERT(*W.o == 0, "a file when it is asked for");
  return step() ? text(T1) : NULL;
}
VIS int voucher_pledge_request_to_smimefile(const struct pledge_config *p, const struct BinaryArray *c, const char *f) {
  op(EPVR);
  VASSERT(p == &C->pconf && c->array == FILEC.array && c->length == FILEC.length, "a request of this pledge to this registrar");
  outname(f, ".smime");
  files++;
  return step() ? 0 : -1;
}
int post_voucher_pledge_request(struct pledge_config *p, struct registrar_config *r, struct masa_config *m, struct BinaryArray *d) {
  op(PREQ);
  VASSERT(p == &C->pconf && r == &C->rconf && m == &C->mconf, "the loaded configuration");
  if (!step()) return -1;
  *d = DOM;
  return 0;
}
int post_sign_cert(struct pledge_config *p, struct registrar_config *r, struct masa_config *m, struct BinaryArray *c, struct BinaryArray *k) {
  op(SIGN);
  VASSERT(p == &C->pconf && r == &C->rconf && m == &C->mconf, "the loaded configuration");
  if (!step()) return -1;
  *c = DOM; *k = KEY;
  return 0;
}
int verify_masa_pledge_request(struct pledge_config *p, struct BinaryArray *v, struct BinaryArray *r, struct BinaryArray *d) {
  op(VMASA);
  VASSERT(p == &C->pconf && v->array == VOUCHER.array && v->length == VOUCHER.length, "the voucher that was given is verified");
  VASSERT(r->array == FILEC.array && r->length == FILEC.length, "against the registrar's certificate");
  if (!step()) return -1;
  *d = DOM;
  return 0;
}
int registrar_start(struct registrar_config *r, struct masa_config *m, struct RegistrarContext **c) { op(REGISTRAR); VASSERT(r == &C->rconf && m == &C->mconf, "the loaded configuration"); *c = NULL; return step() ? 0 : -1; }
int masa_start(struct registrar_config *r, struct masa_config *m, struct pledge_config *p, struct MasaContext **c) { op(MASA); VASSERT(r == &C->rconf && m == &C->mconf && p == &C->pconf, "the loaded configuration"); *c = NULL; return step() ? 0 : -1; }
void registrar_stop(struct RegistrarContext *c) {}
void masa_stop(struct MasaContext *c) {}
VIS int certbuf_to_file(const struct BinaryArray *c, const char *f) {
  VASSERT(done[W.cmd] == 1 && failed == 0 && c->array == DOM.array && c->length == DOM.length, "the certificate that was got is written");
  outname(f, ".crt");
  files++;
  return step() ? 0 : -1;
}
VIS int keybuf_to_file(const struct BinaryArray *c, const char *f) {
  VASSERT(done[SIGN] == 1 && failed == 0 && c->array == KEY.array && c->length == KEY.length, "the key that was got is written");
  outname(f, ".key");
  files++;
  return step() ? 0 : -1;
}
VIS ssize_t serialize_array2base64str(const uint8_t *p, size_t n, uint8_t **o) {
  *o = NULL;
  VASSERT(done[W.cmd] == 1 && failed == 0, "what was got is shown");
  VASSERT(n == 4 && (p == DOM.array || p == KEY.array), "what was got is shown");
  if (!step()) return -1;
  encs++;
  *o = (uint8_t *)text(p == DOM.array ? T1 : T2);
  return *o ? (ssize_t)strlen((char *)*o) : -1;
}
/* certificates */
static struct keyvalue_list K;
VIS struct keyvalue_list *init_keyvalue_list(void) { return step() ? &K : NULL; }
VIS void free_keyvalue_list(struct keyvalue_list *k) {}
VIS CRYPTO_CERT crypto_cert2context(const uint8_t *p, const size_t n) { VASSERT(p == FILEC.array && n == FILEC.length, "the certificate that was read"); return step() ? (CRYPTO_CERT)&cert_obj : NULL; }
VIS void crypto_free_certcontext(CRYPTO_CERT c) {}
VIS int crypto_getcert_meta(CRYPTO_CERT c, struct crypto_cert_meta *m) { VASSERT(c == (CRYPTO_CERT)&cert_obj && m->issuer == &K && m->subject == &K, "the certificate that was read"); return step() ? 0 : -1; }
VIS char *crypto_getcert_serial(struct crypto_cert_meta *m) { op(SERIAL); return step() ? T1 : NULL; }
/* standard input */
static uint8_t *in;
static size_t inn, inat;
VIS ssize_t x_read(int fd, void *p, size_t n) {
  VASSERT(fd == 0, "standard input is read");
  size_t k = 0;
  for (; k < n && inat < inn; k++) ((uint8_t *)p)[k] = in[inat++];
  return (ssize_t)k;
}
VIS size_t x_fread(void *p, size_t s, size_t n, FILE *f) { return s ? (size_t)x_read(0, p, s * n) / s : 0; }
VIS int x_getchar(void) { return inat < inn ? in[inat++] : -1; }
VIS ssize_t serialize_base64str2array(const uint8_t *p, size_t n, uint8_t **o) {
  *o = NULL;
  VASSERT(W.cmd == VMASA, "only a voucher is decoded");
  VASSERT(n == inn && memcmp(p, in, n) == 0, "all of the input is decoded");
  if (n == 0 || !step()) { failed++; return -1; }
  *o = VOUCHER.array;
  return (ssize_t)VOUCHER.length;
}
static void finish(int code) {
  int n = 0;
  for (int i = 0; i <= MASA; i++) n += done[i];
  if (W.stop) {
    VASSERT(n == 0, "nothing is done");
    if (W.stop == 'v') { VASSERT(code == 0 && has(BRSKI_VERSION), "the version is shown"); VWITNESS("version"); }
    else if (W.stop == 'h') { VASSERT(code == 0, "help is no error"); for (int i = 1; i <= MASA; i++) VASSERT(has(NAMES[i]), "the help names every command"); VASSERT(has("brski"), "the help names the program"); VWITNESS("help"); }
    else { VASSERT(code != 0, "an unknown option or a missing argument is an error"); VWITNESS("bad option"); }
  } else if (W.cmd == 0) {
    VASSERT(n == 0, "nothing is done");
    VASSERT(code != 0 || W.none, "an unknown or missing command is an error");
    if (code == 0) { VASSERT(has("epvr"), "without arguments the help is shown"); VWITNESS("no arguments"); }
    else VWITNESS("bad command");
  } else {
    if (code == 0) {
      VASSERT(done[W.cmd] == 1 && failed == 0, "success only when the command did its operation");
      bool f = *W.o != 0;
      if (W.cmd == EPVR) VASSERT(f ? files == 1 : printed(T1, NULL), "the request is given out");
      if (W.cmd == PREQ || W.cmd == VMASA) VASSERT(f ? files == 1 : printed(T1, NULL), "the domain certificate is given out");
      if (W.cmd == SIGN) VASSERT(f ? files == 2 : printed(T1, T2), "the certificate and then the key are given out");
      if (W.cmd == SERIAL) VASSERT(printed(T1, NULL), "the serial number is given out");
      VASSERT(W.d ? levelset && !quietset : quietset, "messages only when they are asked for");
      VWITNESS("done");
    } else {
      bool ok = failed == 0 && !v_oom_hit;
      if (W.cmd != SERIAL) ok = ok && loaded;
      if (W.cmd == SERIAL || W.cmd == VMASA) ok = ok && *W.i != 0;
      if (W.cmd == VMASA) ok = ok && inn < 4096 && inn > 0;
      VASSERT(!ok, "a command whose steps succeed succeeds");
      if (W.cmd != EPVR) VASSERT(done[W.cmd] == 0 || failed || v_oom_hit, "an error for a reason");
      VWITNESS("failed");
    }
  }
}
VIS void x_exit(int code) { finish(code); v_stop(); }
static char *word(const char *s) { char *r = (char *)u_malloc(strlen(s) + 1); strcpy(r, s); return r; }
static void arg(char *s) { av[ac++] = s; av[ac] = NULL; }
static void vis(char *t) { for (; *t; t++) VASSUME(*t > ' '); }
static void setup(void) {
  FILEC.array = nd_buf(1); FILEC.length = 1;
  VOUCHER.array = nd_buf(2); VOUCHER.length = 2;
  DOM.array = pkt[0]; DOM.length = 4; KEY.array = pkt[1]; KEY.length = 4;
  T1 = nd_text(2); T2 = nd_text(2);
  vis(T1); vis(T2);
  arg(word("/usr/bin/brski"));
}
static void go(void) {
  want();
#ifdef OOM
  v_oom_at = (int)nd_range(0, 3);
#endif
  if (W.p) for (const char *s = W.p; *s; s++) VASSUME(*s >= '0' && *s <= '9');
  int r = brski_main(ac, av);
  if (W.cmd != SERIAL && C != NULL) VASSERT(frees >= 1, "the configuration is released");
  finish(r);
}
/* any text as the command */
VIS void h_command(void) {
  setup();
  arg(nd_text(nd_pick(0, 10)));
  if (av[1][0]) VASSUME(av[1][0] != '-');
  in = nd_buf(inn = 3);
  go();
}
/* one token: an option letter of any kind, with or without attached text, a word, a command */
static void token(size_t k) {
  if (k == 0) { char *s = word("-?"); s[1] = nd_char(); VASSUME(s[1] != 0); arg(s); }
  else if (k == 1) { char *s = word("-??"); s[1] = nd_char(); s[2] = nd_char(); VASSUME(s[1] != 0 && s[2] != 0); arg(s); }
  else if (k == 2) arg(nd_text(1));
  else arg(word(NAMES[k - 2]));
}
VIS void h_options(void) {
  setup();
  size_t n = nd_pick(0, NARG);
  for (size_t i = 0; i < n; i++) token(nd_pick(0, NTOK));
  in = nd_buf(inn = 3);
  go();
}
/* every command with all its options */
VIS void h_full(void) {
  setup();
  size_t cmd = nd_pick(1, MASA);
  arg(word("-c")); arg(nd_text(2));
  arg(word("-i")); arg(nd_text(nd_pick(0, 1)));
  arg(word("-o"));
  if (nd_bool()) arg(nd_text(0));
  else { char *s = (char *)u_malloc(LONGNAME + 1); for (int i = 0; i < LONGNAME; i++) s[i] = (char)('a' + i % 26); s[LONGNAME] = 0; s[LONGNAME - 1] = nd_char(); VASSUME(s[LONGNAME - 1] != 0); arg(s); }
  arg(word(NAMES[cmd]));
  in = nd_buf(inn = 3);
  go();
}
VIS void h_address(void) {
  setup();
  size_t k = nd_pick(0, 2);
  if (k != 1) { static const char *const P[] = {"-p??", "-p?43?", "-p6553?"}; char *s = word(P[nd_pick(0, 2)]); for (char *q = s; *q; q++) if (*q == '?') { *q = nd_char(); VASSUME(*q >= '0' && *q <= '9'); } arg(s); }
  if (k != 0) { arg(word("-a")); arg(nd_text(nd_pick(0, 3))); }
  arg(word(NAMES[nd_pick(1, MASA)]));
  in = nd_buf(inn = 3);
  go();
}
static const size_t SIZES[] = {0, 1, 2, 3, 4094, 4095, 4096, 4097, 8200};
VIS void h_stdin(void) {
  setup();
  arg(word("-i")); arg(nd_text(1)); arg(word("vmasa"));
  inn = SIZES[nd_pick(0, 8)];
  in = (uint8_t *)u_malloc(inn + 1);
  for (size_t i = 0; i < inn; i++) in[i] = (uint8_t)('A' + i % 26);
  if (inn) { in[0] = nd_u8(); in[inn / 2] = nd_u8(); in[inn - 1] = nd_u8(); }
  go();
}
