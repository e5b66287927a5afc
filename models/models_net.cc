// Default behaviour of the asio and curl worlds (symbolic and native).
#include "stubs/asio.hpp"
#include "stubs/curl/curl.h"
#include <cstring>
#include <cstdlib>
namespace vp_asio { Recv pending; int receives, rcvbuf; bool setopt_fails; }
// one job after the other, in the posting thread, unless a harness brings its own pool
__attribute__((weak)) void vp_asio_pool(void*, size_t) {}
__attribute__((weak)) void vp_asio_pool_end(void*) {}
__attribute__((weak)) void vp_asio_post(void*, std::function<void()> job) { job(); }
__attribute__((weak)) CURLcode vp_curl_perform(VpCurl*) { return CURLE_COULDNT_CONNECT; }
CURL* curl_easy_init() { return new VpCurl; }
void curl_easy_cleanup(CURL* c) { delete c; }
CURLcode curl_easy_perform(CURL* c) { return vp_curl_perform(c); }
const char* curl_easy_strerror(CURLcode) { return "curl error"; }
curl_slist* curl_slist_append(curl_slist* l, const char* s) {
  auto* n = (curl_slist*)malloc(sizeof(curl_slist)); size_t k = strlen(s); n->data = (char*)malloc(k + 1); memcpy(n->data, s, k + 1); n->next = nullptr;
  if (!l) return n;
  curl_slist* p = l; while (p->next) p = p->next; p->next = n; return l;
}
void curl_slist_free_all(curl_slist* l) { while (l) { auto* n = l->next; free(l->data); free(l); l = n; } }
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup() {}
void vp_curl_opt(CURL* c, CURLoption o, const void* p) {
  switch (o) {
    case CURLOPT_URL: c->url = (const char*)p; break;
    case CURLOPT_USERAGENT: c->useragent = (const char*)p; break;
    case CURLOPT_CUSTOMREQUEST: c->method = (const char*)p; break;
    case CURLOPT_POSTFIELDS: c->body = p; break;
    case CURLOPT_HTTPHEADER: c->headers = (curl_slist*)p; break;
    case CURLOPT_WRITEFUNCTION: c->wfun = (size_t(*)(char*, size_t, size_t, void*))p; break;
    case CURLOPT_WRITEDATA: c->wdata = (void*)p; break;
    case CURLOPT_HEADERFUNCTION: c->hfun = (size_t(*)(char*, size_t, size_t, void*))p; break;
    case CURLOPT_HEADERDATA: c->hdata = (void*)p; break;
    case CURLOPT_ERRORBUFFER: c->errbuf = (char*)p; break;
    case CURLOPT_SSL_CTX_FUNCTION: c->metatron = true; break;
    default: break;
  }
}
void vp_curl_opt_l(CURL* c, CURLoption o, long v) {
  switch (o) {
    case CURLOPT_POST: c->post = v != 0; break;
    case CURLOPT_POSTFIELDSIZE: case CURLOPT_POSTFIELDSIZE_LARGE: c->body_size = v; break;
    case CURLOPT_TIMEOUT_MS: c->timeout_ms = v; break;
    case CURLOPT_CONNECTTIMEOUT_MS: c->connect_ms = v; break;
    case CURLOPT_TIMEOUT: c->timeout_ms = v * 1000; break;
    case CURLOPT_CONNECTTIMEOUT: c->connect_ms = v * 1000; break;
    default: break;
  }
}
#include "metatron/metatron_config.h"
namespace metatron {
CertInfo find_certificate(bool, const std::string&) { return {"cert", "key", "ca", "app"}; }
int metatron_verify_callback(int ok, X509_STORE_CTX*) { return ok; }
CURLcode sslctx_metatron_verify(CURL*, void*, void*) { return CURLE_OK; }
}
