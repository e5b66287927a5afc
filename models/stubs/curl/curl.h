// libcurl as far as the HTTP client uses it (its development files are not installed here): a transfer
// records its options and asks the harness (vp_curl_perform) for its outcome.
#pragma once
#include <cstddef>
#include <string>
#include <vector>
#define CURL_ERROR_SIZE 256
#define CURL_GLOBAL_ALL 3
enum CURLcode { CURLE_OK = 0, CURLE_UNSUPPORTED_PROTOCOL = 1, CURLE_URL_MALFORMAT = 3, CURLE_COULDNT_RESOLVE_PROXY = 5, CURLE_COULDNT_RESOLVE_HOST = 6, CURLE_COULDNT_CONNECT = 7, CURLE_PARTIAL_FILE = 18, CURLE_WRITE_ERROR = 23, CURLE_OUT_OF_MEMORY = 27, CURLE_OPERATION_TIMEDOUT = 28, CURLE_SSL_CONNECT_ERROR = 35, CURLE_GOT_NOTHING = 52, CURLE_SEND_ERROR = 55, CURLE_RECV_ERROR = 56 };
enum CURLoption { CURLOPT_WRITEDATA = 10001, CURLOPT_URL = 10002, CURLOPT_ERRORBUFFER = 10010, CURLOPT_WRITEFUNCTION = 20011, CURLOPT_POSTFIELDS = 10015, CURLOPT_USERAGENT = 10018, CURLOPT_HTTPHEADER = 10023, CURLOPT_SSLCERT = 10025, CURLOPT_HEADERDATA = 10029, CURLOPT_CUSTOMREQUEST = 10036, CURLOPT_STDERR = 10037, CURLOPT_VERBOSE = 41, CURLOPT_POST = 47, CURLOPT_POSTFIELDSIZE = 60, CURLOPT_SSL_VERIFYPEER = 64, CURLOPT_CAINFO = 10065, CURLOPT_HEADERFUNCTION = 20079, CURLOPT_SSL_VERIFYHOST = 81, CURLOPT_SSLKEY = 10087, CURLOPT_CAPATH = 10097, CURLOPT_SSL_CTX_FUNCTION = 20108, CURLOPT_SSL_CTX_DATA = 10109, CURLOPT_TIMEOUT_MS = 155, CURLOPT_CONNECTTIMEOUT_MS = 156, CURLOPT_NOSIGNAL = 99, CURLOPT_TIMEOUT = 13, CURLOPT_CONNECTTIMEOUT = 78, CURLOPT_POSTFIELDSIZE_LARGE = 30120, CURLOPT_PUT = 54, CURLOPT_UPLOAD = 46 };
enum CURLINFO { CURLINFO_RESPONSE_CODE = 0x200002 };
struct curl_slist { char* data; curl_slist* next; };
struct VpCurl {
  std::string url, method, useragent; bool post = false; const void* body = nullptr; long body_size = -1;
  curl_slist* headers = nullptr; long timeout_ms = 0, connect_ms = 0; bool metatron = false;
  size_t (*wfun)(char*, size_t, size_t, void*) = nullptr; void* wdata = nullptr;
  size_t (*hfun)(char*, size_t, size_t, void*) = nullptr; void* hdata = nullptr;
  char* errbuf = nullptr; long status = 0;
};
typedef VpCurl CURL;
CURLcode vp_curl_perform(VpCurl* c);
CURL* curl_easy_init();
void curl_easy_cleanup(CURL*);
CURLcode curl_easy_perform(CURL*);
const char* curl_easy_strerror(CURLcode);
curl_slist* curl_slist_append(curl_slist*, const char*);
void curl_slist_free_all(curl_slist*);
CURLcode curl_global_init(long);
void curl_global_cleanup();
void vp_curl_opt(CURL*, CURLoption, const void*);
void vp_curl_opt_l(CURL*, CURLoption, long);
inline CURLcode curl_easy_setopt(CURL* c, CURLoption o, const void* p) { vp_curl_opt(c, o, p); return CURLE_OK; }
inline CURLcode curl_easy_setopt(CURL* c, CURLoption o, decltype(nullptr)) { vp_curl_opt(c, o, nullptr); return CURLE_OK; }
inline CURLcode curl_easy_setopt(CURL* c, CURLoption o, long v) { vp_curl_opt_l(c, o, v); return CURLE_OK; }
inline CURLcode curl_easy_setopt(CURL* c, CURLoption o, int v) { vp_curl_opt_l(c, o, v); return CURLE_OK; }
inline CURLcode curl_easy_setopt(CURL* c, CURLoption o, unsigned long v) { vp_curl_opt_l(c, o, (long)v); return CURLE_OK; }
template <class R, class... A> CURLcode curl_easy_setopt(CURL* c, CURLoption o, R (*f)(A...)) { vp_curl_opt(c, o, (const void*)f); return CURLE_OK; }
inline CURLcode curl_easy_getinfo(CURL* c, CURLINFO, long* v) { *v = c->status; return CURLE_OK; }
