// C31: routing, request and answer, and the client, over the contract of the HTTP library
#include "fake/fakehttplib.h"
#include "v.h"
#include "brski/http/http.hpp"
#include "brski/http/https_client.hpp"
#include "brski/masa/masa_api.hpp"
#include "brski/masa/masa_config.h"
#include "brski/masa/masa_server.hpp"
#include "brski/pledge/pledge_config.h"
#include "brski/registrar/registrar_api.hpp"
#include "brski/registrar/registrar_config.h"
#include "brski/registrar/registrar_server.hpp"
#define VIS extern "C"
using namespace httplib;
static struct registrar_config RC;
static struct masa_config MC;
static struct pledge_config PC;
static bool masa;                                             // which server
static void **slot;                                           // where the caller keeps its context
static int peer_obj, ssl_obj, servers, calls, called, stops, listens, listen_how;
static bool with_peer;
static Request *req;
static std::string *want_body, *answer;
static int st, hthrows, nhead;
static std::string *hv[3];
static const char *hk[3];
struct boom : public std::exception { const char *what() const noexcept { return "boom"; } };
enum { R_VOUCHER = 1, R_STATUS, R_AUDIT, R_ENROLL, R_SIGN, M_VOUCHER, M_STATUS, M_AUDIT, M_ENROLL, M_CACERTS, M_SIMPLE, M_RE, M_CMC, M_KEYGEN, M_ATTRS };
static int handler(int id, const RequestHeader &h, const std::string &body, CRYPTO_CERT peer, ResponseHeader &rh, std::string &response, void *ctx) {
  VASSERT(calls++ == 0, "one handler serves a request");
  called = id;
  VASSERT(peer == (with_peer ? (CRYPTO_CERT)&peer_obj : NULL), "the handler gets the certificate of the TLS peer");
  VASSERT(body == *want_body, "the handler gets the request body");
  VASSERT(ctx != NULL && ctx == *slot, "the handler gets the server's context");
  // headers: every name with its values in order, joined
  std::string a, b;
  for (int i = 0; i < nhead; i++) {
    std::string &d = hk[i][0] == 'A' ? a : b;
    if (!d.empty()) d += ", ";
    d += *hv[i];
  }
  size_t n = 0;
  for (RequestHeader::const_iterator i = h.begin(); i != h.end(); ++i, n++) VASSERT(i->first == "A" ? i->second == a : i->first == "B" && i->second == b, "the handler gets the request headers");
  VASSERT(n == (size_t)!a.empty() + (size_t)!b.empty(), "the handler gets all request headers");
  if (hthrows == 1) throw boom();
  if (hthrows == 2) throw 7;
  response = *answer;
  rh["Content-Type"] = "a/b";
  rh["X"] = "1";
  return st;
}
#define H(name, id) int name(const RequestHeader &h, const std::string &b, CRYPTO_CERT p, ResponseHeader &rh, std::string &r, void *c) { return handler(id, h, b, p, rh, r, c); }
H(registrar_requestvoucher, R_VOUCHER) H(registrar_voucher_status, R_STATUS) H(registrar_requestauditlog, R_AUDIT) H(registrar_enrollstatus, R_ENROLL) H(registrar_est_simpleenroll, R_SIGN)
H(masa_requestvoucher, M_VOUCHER) H(masa_voucher_status, M_STATUS) H(masa_requestauditlog, M_AUDIT) H(masa_enrollstatus, M_ENROLL) H(get_est_cacerts, M_CACERTS) H(post_est_simpleenroll, M_SIMPLE)
H(post_est_simplereenroll, M_RE) H(post_est_fullcmc, M_CMC) H(post_est_serverkeygen, M_KEYGEN) H(get_est_csrattrs, M_ATTRS)
/* what has to be served */
struct row { const char *method, *path; int m, r; };
static const struct row ROWS[] = {
  {"POST", "/.well-known/brski/requestvoucher", M_VOUCHER, R_VOUCHER},
  {"POST", "/.well-known/brski/voucher_status", M_STATUS, R_STATUS},
  {"POST", "/.well-known/brski/requestauditlog", M_AUDIT, R_AUDIT},
  {"POST", "/.well-known/brski/enrollstatus", M_ENROLL, R_ENROLL},
  {"GET", "/.well-known/est/cacerts", M_CACERTS, 0},
  {"POST", "/.well-known/est/simpleenroll", M_SIMPLE, R_SIGN},
  {"POST", "/.well-known/est/simplereenroll", M_RE, 0},
  {"POST", "/.well-known/est/fullcmc", M_CMC, 0},
  {"POST", "/.well-known/est/serverkeygen", M_KEYGEN, 0},
  {"GET", "/.well-known/est/csrattrs", M_ATTRS, 0},
  {"-", "/", 0, 0},
  {"-", "/.well-known/brski/requestvoucher/", 0, 0},
  {"-", "/.well-known/brski", 0, 0},
  {"-", "/requestvoucher", 0, 0},
};
#define NROWS (sizeof ROWS / sizeof ROWS[0])
static const char *const METHODS[] = {"POST", "GET", "PUT", "DELETE", "OPTIONS", "PATCH", "HEAD"};
static size_t row, meth;

VIS X509 *SSL_get0_peer_certificate(const SSL *s) { VASSERT(s == (const SSL *)&ssl_obj, "the certificate of the request's connection"); return with_peer ? (X509 *)&peer_obj : NULL; }
VIS X509 *SSL_get1_peer_certificate(const SSL *s) { VASSERT(false, "no reference is left behind"); return (X509 *)&peer_obj; }
static bool same_text(const char *a, const char *b) { return a == b || (a && b && strcmp(a, b) == 0); }
SSLServer::SSLServer(const char *cert, const char *key, const char *ca, const char *dir, const char *pass) {
  VASSERT(same_text(cert, masa ? MC.tls_cert_path : RC.tls_cert_path) && same_text(key, masa ? MC.tls_key_path : RC.tls_key_path), "the server identifies itself with its configured certificate and key");
  VASSERT(same_text(ca, masa ? RC.tls_ca_cert_path : NULL), "clients of the MASA are verified against the configured authority");
  if (listen_how == 3) throw boom();
  servers++;
}
SSLServer::~SSLServer() { VASSERT(servers == 1, "a server is released once"); servers--; }
SSL_CTX *SSLServer::ssl_context() const { return NULL; }
void SSLServer::stop() { VASSERT(servers == 1, "a living server is stopped"); stops++; }
static void dispatch(SSLServer *s);
bool SSLServer::listen(const std::string &host, int port) {
  VASSERT(host == (masa ? MC.bind_address : RC.bind_address) && port == (int)(masa ? MC.port : RC.port), "the server listens at its configured address");
  listens++;
  if (listen_how == 1) return false;
  if (listen_how == 2) throw boom();
  if (!masa) strcpy(((struct RegistrarContext *)*slot)->log_path, "x");
  dispatch(this);
  return true;
}
static int run_error(SSLServer *s, Response &res) { if (res.status >= 400 && s->on_error) s->on_error(*req, res); return 0; }
static void dispatch(SSLServer *s) {
  Response res;
  bool routed = false;
  try {
    for (size_t i = 0; i < s->table.size() && !routed; i++) {
      SSLServer::entry &e = s->table[i];
      if (e.path == req->path && (e.method == req->method || (e.method == "GET" && req->method == "HEAD"))) { routed = true; e.h(*req, res); }
    }
  } catch (...) {
    VASSERT((bool)s->on_exception, "an exception is handled");
    s->on_exception(*req, res, std::current_exception());
    routed = true;
  }
  if (res.status == -1) res.status = routed ? 200 : 404;
  run_error(s, res);
  const struct row *w = &ROWS[row];
  int want = masa ? w->m : w->r;
  if (strcmp(w->method, req->method.c_str()) != 0 && !(req->method == "HEAD" && strcmp(w->method, "GET") == 0)) want = 0;
  VASSERT(called == want, "each path and method is served by exactly its handler");
  size_t ct = res.headers.count("Content-Type"), x = res.headers.count("X");
  if (want == 0) { VASSERT(res.status == 404, "an unknown path or method gets 404"); VWITNESS("not found"); }
  else if (hthrows) { VASSERT(res.status >= 500 && res.status <= 599, "an exception becomes a server error answer"); VWITNESS("exception"); }
  else {
    VASSERT(res.status == st, "the answer has the handler's status");
    VASSERT(x == 1 && res.headers.find("X")->second == "1", "the answer has the handler's headers");
    if (st < 400 || !answer->empty()) VASSERT(res.body == *answer, "the answer has the handler's body");
    if (st < 400) { VASSERT(ct == 1 && res.headers.find("Content-Type")->second == "a/b", "the answer has the handler's content type"); VWITNESS("served"); }
  }
  if (res.status >= 400) {
    VASSERT(ct == 1 && res.headers.find("Content-Type")->second == "text/plain", "an error answer is plain text");
    VASSERT(!res.body.empty(), "an error answer has a text");
    VWITNESS("error answer");
  }
}
static std::string *text(size_t n) { std::string *s = new std::string(); for (size_t i = 0; i < n; i++) s->push_back(nd_char()); return s; }
static void setup(void) {
  masa = nd_bool();
  RC.bind_address = (char *)"registrar"; RC.port = nd_u32(); MC.bind_address = (char *)"masa"; MC.port = nd_u32();
  RC.tls_cert_path = (char *)"r.crt"; RC.tls_key_path = (char *)"r.key"; RC.tls_ca_cert_path = (char *)"rca.crt"; RC.tls_ca_key_path = (char *)"rca.key";
  MC.tls_cert_path = (char *)"m.crt"; MC.tls_key_path = (char *)"m.key"; MC.tls_ca_cert_path = (char *)"mca.crt";
  req = new Request();
  row = nd_pick(0, NROWS - 1);
  meth = nd_pick(0, NMETH);
  req->method = METHODS[meth];
  req->path = ROWS[row].path;
  req->ssl = (const SSL *)&ssl_obj;
  with_peer = nd_bool();
  want_body = text(nd_pick(0, NBODY));
  req->body = *want_body;
  answer = text(nd_pick(0, NBODY));
  st = nd_int();
  VASSUME(st >= 100 && st <= 599);
  nhead = (int)nd_pick(0, NHEAD);
  for (int i = 0; i < nhead; i++) {
    hk[i] = nd_bool() ? "A" : "B";
    hv[i] = text(1);
    req->headers.insert(std::make_pair(std::string(hk[i]), *hv[i]));
  }
  hthrows = (int)nd_pick(0, NTHROW);
  listen_how = (int)nd_pick(0, NLISTEN);
}
VIS void h_serve(void) {
  setup();
  int live = v_live, r;
  size_t miss = nd_pick(0, NMISS);
  if (miss == 1) RC.tls_cert_path = MC.tls_cert_path = NULL;
  if (miss == 2) RC.tls_key_path = MC.tls_key_path = NULL;
  struct MasaContext *mc = NULL;
  struct RegistrarContext *rc = NULL;
  slot = masa ? (void **)&mc : (void **)&rc;
  r = masa ? masa_start(&RC, &MC, &PC, &mc) : registrar_start(&RC, &MC, &rc);
  if (r == 0) {
    VASSERT(listens == 1 && listen_how == 0 && miss == 0, "success only after listening");
    VASSERT(masa ? mc->rconf == &RC && mc->mconf == &MC : rc->rconf == &RC && rc->mconf == &MC, "the context has the configuration");
    VWITNESS("stopped");
  } else {
    VASSERT(r < 0, "0 or negative");
    VASSERT(listen_how != 0 || miss != 0, "a server that can listen does");
    VWITNESS("no server");
  }
  if (masa) masa_stop(mc); else registrar_stop(rc);
  VASSERT(servers == 0, "the server is released");
  VASSERT(v_live == live, "everything allocated is released");
}

/* the client */
static int clients, cli_cert, copies, posts;
static bool c_verify, c_set, c_ok, c_ca, c_got;
static std::string *CA;
static int want_verify;
std::string httplib::to_string(Error e) { return "error"; }
Result::~Result() { delete res; }
SSLClient::SSLClient(const std::string &host, int port, const std::string &cert, const std::string &key) {
  VASSERT(host == "host" && port == 4433, "the given server is asked");
  VASSERT(cert == "cli.crt" && key == "cli.key", "the client identifies itself with the given certificate and key");
  VASSERT(clients++ == 0, "one client");
}
SSLClient::~SSLClient() { clients--; cli_cert = 0; }
void SSLClient::enable_server_certificate_verification(bool on) { c_verify = on; c_set = true; }
void SSLClient::enable_host_verification(bool on) {}
void SSLClient::load_ca_cert_store(const char *p, size_t n) { VASSERT(CA != NULL && std::string(p, n) == *CA, "exactly the given authority is trusted"); c_ca = true; }
Result SSLClient::Post(const std::string &path, const std::string &body, const std::string &type) {
  VASSERT(path == "/path" && body == *want_body && type == "type", "exactly the given request is sent");
  if (want_verify) VASSERT(!c_set || c_verify, "the server's certificate is verified");
  if (CA) VASSERT(c_ca, "the given authority is trusted");
  VASSERT(posts++ == 0, "sent once");
  Result r;
  c_ok = nd_bool();
  if (c_ok) {
    r.res = new Response();
    r.res->status = st;
    r.res->body = *answer;
    r.err = Error::Success;
    if (nd_bool()) cli_cert = 1;
    c_got = cli_cert;
  }
  return r;
}
X509 *SSLClient::server_cert() const { return cli_cert ? (X509 *)&cli_cert : NULL; }
VIS CRYPTO_CERT crypto_copycert(CRYPTO_CERT c) {
  if (c == NULL) return NULL;
  VASSERT(c == (CRYPTO_CERT)&cli_cert && clients == 1 && cli_cert == 1, "the certificate is that of the living connection");
  if (nd_bool()) { c_got = false; return NULL; }
  copies++;
  return (CRYPTO_CERT)&peer_obj;
}
VIS void crypto_free_certcontext(CRYPTO_CERT c) { if (c) { VASSERT(copies == 1, "released once"); copies--; } }
static void csetup(void) {
  want_body = text(nd_pick(0, 2));
  answer = text(nd_pick(0, 2));
  st = nd_int();
  VASSUME(st >= 0 && st <= 999);
}
VIS void h_client(void) {
  csetup();
  want_verify = nd_bool();
  int live = v_live;
  {
    struct HttpResponse res;
    res.peer_certificate = NULL;
    int r = https_post_request("cli.key", "cli.crt", "host", 4433, "/path", want_verify, *want_body, "type", res);
    if (c_ok) {
      VASSERT(r == st && res.response == *answer, "the server's status and body are returned");
      VASSERT(res.peer_certificate == (c_got ? (CRYPTO_CERT)&peer_obj : NULL), "a copy of the server's certificate is returned");
      VWITNESS("answered");
    } else {
      VASSERT(r < 0, "no answer is an error");
      VASSERT(res.peer_certificate == NULL, "no certificate without an answer");
      VWITNESS("no answer");
    }
    crypto_free_certcontext(res.peer_certificate);
  }
  VASSERT(clients == 0 && copies == 0 && v_live == live, "everything allocated is released");
}
VIS void h_client_ca(void) {
  csetup();
  want_verify = 1;
  CA = text(nd_pick(0, 2));
  int live = v_live;
  {
    std::string res;
    int r = https_post_request_ca("cli.key", "cli.crt", *CA, "host", 4433, "/path", *want_body, "type", res);
    if (c_ok) { VASSERT(r == st && res == *answer, "the server's status and body are returned"); VWITNESS("answered"); }
    else { VASSERT(r < 0, "no answer is an error"); VWITNESS("no answer"); }
  }
  VASSERT(clients == 0 && copies == 0 && v_live == live, "everything allocated is released");
}
