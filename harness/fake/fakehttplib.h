// C31: the contract of the HTTP library, in place of its implementation (same include guard)
#ifndef CPPHTTPLIB_HTTPLIB_H
#define CPPHTTPLIB_HTTPLIB_H
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <openssl/ssl.h>
namespace httplib {
typedef std::multimap<std::string, std::string> Headers;
struct Request {
  std::string method, path, body;
  Headers headers;
  const SSL *ssl;
};
struct Response {
  int status;
  std::string body;
  Headers headers;
  Response() : status(-1) {}
  bool has_header(const std::string &k) const { return headers.find(k) != headers.end(); }
  void set_header(const std::string &k, const std::string &v) { headers.insert(std::make_pair(k, v)); }
  void set_content(const std::string &s, const std::string &type) {
    body = s;
    headers.erase("Content-Type");
    set_header("Content-Type", type);
  }
  void set_content(const char *s, const std::string &type) { set_content(std::string(s), type); }
  void set_content(const char *s, size_t n, const std::string &type) { set_content(std::string(s, n), type); }
};
enum class Error { Success, Connection };
std::string to_string(Error e);
struct Result {
  Response *res;
  Error err;
  Result() : res(nullptr), err(Error::Connection) {}
  Result(Result &&o) : res(o.res), err(o.err) { o.res = nullptr; }
  ~Result();
  explicit operator bool() const { return res != nullptr; }
  bool operator==(std::nullptr_t) const { return res == nullptr; }
  bool operator!=(std::nullptr_t) const { return res != nullptr; }
  const Response &value() const { return *res; }
  Response &value() { return *res; }
  const Response *operator->() const { return res; }
  Response *operator->() { return res; }
  const Response &operator*() const { return *res; }
  Error error() const { return err; }
};
typedef std::function<void(const Request &, Response &)> Handler;
typedef std::function<void(const Request &, Response &, std::exception_ptr)> ExceptionHandler;
struct SSLServer {
  struct entry { std::string method, path; Handler h; };
  std::vector<entry> table;
  Handler on_error;
  ExceptionHandler on_exception;
  SSLServer(const char *cert, const char *key, const char *ca = nullptr, const char *dir = nullptr, const char *pass = nullptr);
  ~SSLServer();
  SSL_CTX *ssl_context() const;
  bool is_valid() const { return true; }
  SSLServer &add(const char *m, const std::string &p, Handler &h) {
    table.push_back(entry());
    entry &e = table.back();
    e.method = m; e.path = p; e.h = h;
    return *this;
  }
  SSLServer &Get(const std::string &p, Handler h) { return add("GET", p, h); }
  SSLServer &Post(const std::string &p, Handler h) { return add("POST", p, h); }
  SSLServer &Put(const std::string &p, Handler h) { return add("PUT", p, h); }
  SSLServer &Delete(const std::string &p, Handler h) { return add("DELETE", p, h); }
  SSLServer &Options(const std::string &p, Handler h) { return add("OPTIONS", p, h); }
  SSLServer &Patch(const std::string &p, Handler h) { return add("PATCH", p, h); }
  SSLServer &set_error_handler(Handler h) { on_error = h; return *this; }
  SSLServer &set_exception_handler(ExceptionHandler h) { on_exception = h; return *this; }
  bool listen(const std::string &host, int port);
  void stop();
};
struct SSLClient {
  SSLClient(const std::string &host, int port, const std::string &cert, const std::string &key);
  ~SSLClient();
  void enable_server_certificate_verification(bool on);
  void enable_host_verification(bool on);
  void load_ca_cert_store(const char *p, size_t n);
  Result Post(const std::string &path, const std::string &body, const std::string &type);
  X509 *server_cert() const;
  bool is_valid() const { return true; }
};
} // namespace httplib
#endif
