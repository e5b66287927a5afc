// A stand-in for the part of Poco the admin server uses: requests come from a harness, answers go to it.
// JSON texts are not parsed here: a harness says which document (or error) a request's body is.
#pragma once
#include <istream>
#include <functional>
#include <map>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <typeinfo>
#include <utility>
#include <vector>
namespace Poco {
class Exception : public std::exception {
  std::string m;
 public:
  explicit Exception(const std::string& s = "", int = 0) : m(s) {}
  const std::string& message() const { return m; }
  std::string displayText() const { return m; }
  const char* what() const noexcept override { return m.c_str(); }
  virtual const char* name() const noexcept { return "Exception"; }
};
struct BadCastException : Exception { using Exception::Exception; };
struct NotFoundException : Exception { using Exception::Exception; };
struct InvalidAccessException : Exception { using Exception::Exception; };
struct SyntaxException : Exception { using Exception::Exception; };
template <class C> class SharedPtr {
  std::shared_ptr<C> p;
 public:
  SharedPtr() {}
  SharedPtr(C* c) : p(c) {}
  SharedPtr(std::nullptr_t) {}
  SharedPtr& operator=(C* c) { p.reset(c); return *this; }
  C* operator->() const { if (!p) throw Exception("null pointer"); return p.get(); }
  C& operator*() const { if (!p) throw Exception("null pointer"); return *p; }
  C* get() const { return p.get(); }
  bool isNull() const { return !p; }
  bool operator!() const { return !p; }
  explicit operator bool() const { return (bool)p; }
  operator C*() const { return p.get(); }
};
namespace Dynamic {
class Var {
  struct Holder { virtual ~Holder() {} virtual const std::type_info& type() const = 0; };
  template <class T> struct Of : Holder { T v; explicit Of(T x) : v(std::move(x)) {} const std::type_info& type() const override { return typeid(T); } };
  std::shared_ptr<Holder> h;
 public:
  Var() {}
  template <class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, Var>>> Var(const T& v) : h(std::make_shared<Of<T>>(v)) {}
  Var(const char* s) : Var(std::string(s)) {}
  const std::type_info& type() const { return h ? h->type() : typeid(void); }
  bool isEmpty() const { return !h; }
  bool isString() const { return type() == typeid(std::string); }
  bool isInteger() const { return type() == typeid(int) || type() == typeid(long) || type() == typeid(unsigned long); }
  bool isNumeric() const { return isInteger() || type() == typeid(double); }
  template <class T> const T& extract() const {
    if (h && h->type() == typeid(T)) return static_cast<Of<T>*>(h.get())->v;
    if (!h) throw InvalidAccessException("Can not extract empty value.");
    throw BadCastException("Can not convert");
  }
  template <class T> T convert() const { return extract<T>(); }
  std::string toString() const { return convert<std::string>(); }
  template <class T> bool is() const { return type() == typeid(T); }
};
}  // namespace Dynamic
namespace JSON {
class Object; class Array;
void vp_write(std::ostream& os, const Dynamic::Var& v);
class Object {
 public:
  using Ptr = SharedPtr<Object>;
  using ValueMap = std::map<std::string, Dynamic::Var>;
  using Iterator = ValueMap::iterator; using ConstIterator = ValueMap::const_iterator; using NameList = std::vector<std::string>;
  explicit Object(bool = false) {}
  explicit Object(int) {}
  Object& set(const std::string& k, const Dynamic::Var& v) { m[k] = v; return *this; }
  Dynamic::Var get(const std::string& k) const { auto i = m.find(k); return i == m.end() ? Dynamic::Var() : i->second; }
  template <class T> T getValue(const std::string& k) const { return get(k).convert<T>(); }
  Ptr getObject(const std::string& k) const { auto v = get(k); return v.type() == typeid(Ptr) ? v.extract<Ptr>() : Ptr(); }
  bool has(const std::string& k) const { return m.find(k) != m.end(); }
  bool isNull(const std::string& k) const { return get(k).isEmpty(); }
  void remove(const std::string& k) { m.erase(k); }
  void clear() { m.clear(); }
  std::size_t size() const { return m.size(); }
  NameList getNames() const { NameList r; for (auto& x : m) r.push_back(x.first); return r; }
  void getNames(NameList& r) const { r = getNames(); }
  Iterator begin() { return m.begin(); } Iterator end() { return m.end(); }
  ConstIterator begin() const { return m.begin(); } ConstIterator end() const { return m.end(); }
  void stringify(std::ostream& os, unsigned = 0, int = -1) const;
 private:
  ValueMap m;
};
class Array {
 public:
  using Ptr = SharedPtr<Array>;
  using ValueVec = std::vector<Dynamic::Var>;
  explicit Array(int = 0) {}
  Array& add(const Dynamic::Var& v) { a.push_back(v); return *this; }
  Array& set(unsigned i, const Dynamic::Var& v) { if (i >= a.size()) a.resize(i + 1); a[i] = v; return *this; }
  Dynamic::Var get(unsigned i) const { return i < a.size() ? a[i] : Dynamic::Var(); }
  std::size_t size() const { return a.size(); }
  ValueVec::const_iterator begin() const { return a.begin(); } ValueVec::const_iterator end() const { return a.end(); }
  void stringify(std::ostream& os, unsigned = 0, int = -1) const;
 private:
  ValueVec a;
};
struct JSONException : Exception { using Exception::Exception; };
class Parser {
  Dynamic::Var r;
 public:
  Dynamic::Var parse(std::istream&);
  Dynamic::Var parse(const std::string&);
  Dynamic::Var result() const { return r; }
  Dynamic::Var asVar() const { return r; }
  void reset() { r = Dynamic::Var(); }
};
}  // namespace JSON
namespace Net {
struct HTTPMessage { static inline const std::string HTTP_1_1 = "HTTP/1.1"; static constexpr int UNKNOWN_CONTENT_LENGTH = -1; };
struct HTTPRequest : HTTPMessage {
  static inline const std::string HTTP_GET = "GET", HTTP_POST = "POST", HTTP_DELETE = "DELETE", HTTP_PUT = "PUT", HTTP_HEAD = "HEAD", HOST = "Host";
};
class HTTPServerRequest : public HTTPRequest {
 public:
  std::string vp_uri, vp_method, vp_host; bool vp_has_host = true;
  virtual ~HTTPServerRequest() {}
  const std::string& getURI() const { return vp_uri; }
  const std::string& getMethod() const { return vp_method; }
  const std::string& getHost() const { if (!vp_has_host) throw NotFoundException("Host"); return vp_host; }
  bool has(const std::string& n) const { return n == "Host" && vp_has_host; }
  const std::string& get(const std::string& n) const { if (n != "Host") throw NotFoundException(n); return getHost(); }
  std::istream& stream();
};
class HTTPResponse : public HTTPMessage {
 public:
  enum HTTPStatus { HTTP_OK = 200, HTTP_CREATED = 201, HTTP_ACCEPTED = 202, HTTP_NO_CONTENT = 204, HTTP_BAD_REQUEST = 400, HTTP_UNAUTHORIZED = 401, HTTP_FORBIDDEN = 403, HTTP_NOT_FOUND = 404, HTTP_METHOD_NOT_ALLOWED = 405, HTTP_CONFLICT = 409, HTTP_INTERNAL_SERVER_ERROR = 500, HTTP_NOT_IMPLEMENTED = 501, HTTP_SERVICE_UNAVAILABLE = 503 };
  HTTPStatus vp_status = HTTP_OK; std::string vp_reason, vp_type;
  static const std::string& getReasonForStatus(HTTPStatus) { static const std::string r = "reason"; return r; }
  void setStatus(HTTPStatus s) { vp_status = s; }
  void setReason(const std::string& r) { vp_reason = r; }
  void setStatusAndReason(HTTPStatus s) { vp_status = s; vp_reason = getReasonForStatus(s); }
  void setStatusAndReason(HTTPStatus s, const std::string& r) { vp_status = s; vp_reason = r; }
  void setContentType(const std::string& t) { vp_type = t; }
  void setContentLength(long) {} void setKeepAlive(bool) {} void setChunkedTransferEncoding(bool) {} void set(const std::string&, const std::string&) {} void add(const std::string&, const std::string&) {}
  HTTPStatus getStatus() const { return vp_status; }
  const std::string& getReason() const { return vp_reason; }
  const std::string& getContentType() const { return vp_type; }
};
class HTTPServerResponse : public HTTPResponse {
 public:
  int vp_sends = 0; HTTPStatus vp_sent = HTTP_OK; std::string vp_sent_type;
  virtual ~HTTPServerResponse() {}
  std::ostream& send();
  void sendBuffer(const void* p, std::size_t n) { send().write((const char*)p, (std::streamsize)n); }
  bool sent() const { return vp_sends > 0; }
};
class HTTPRequestHandler { public: virtual ~HTTPRequestHandler() {} virtual void handleRequest(HTTPServerRequest&, HTTPServerResponse&) = 0; };
class HTTPRequestHandlerFactory { public: using Ptr = SharedPtr<HTTPRequestHandlerFactory>; virtual ~HTTPRequestHandlerFactory() {} virtual HTTPRequestHandler* createRequestHandler(const HTTPServerRequest&) = 0; };
class HTTPServerParams { public: using Ptr = SharedPtr<HTTPServerParams>; };
class SocketAddress { public: SocketAddress(const std::string&, unsigned short) {} };
class HTTPServer { public: HTTPServer(HTTPRequestHandlerFactory::Ptr, const SocketAddress&, HTTPServerParams::Ptr) {} void start() {} void stop() {} };
}  // namespace Net
}  // namespace Poco
// ---- the harness's side
namespace vp_poco {
extern std::function<Poco::Dynamic::Var()> document;   // the document a body is, or throws
extern std::shared_ptr<Poco::JSON::Object> last;   // the last document written
extern std::string text;   // everything else written
}
