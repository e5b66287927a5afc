// The Poco stand-in's streams and hooks (symbolic and native).
#include "stubs/Poco/vp_poco.h"
namespace vp_poco { std::function<Poco::Dynamic::Var()> document; std::shared_ptr<Poco::JSON::Object> last; std::string text; }
#ifdef VP_SYM
// type names of the built-in types
struct VpTi { const void* vt; const char* name; };
#define TI(c) extern "C" { extern const VpTi vp_ti_##c __asm__("_ZTI" #c); const VpTi vp_ti_##c = {nullptr, #c}; }
TI(v) TI(b) TI(c) TI(a) TI(h) TI(s) TI(t) TI(i) TI(j) TI(l) TI(m) TI(x) TI(y) TI(f) TI(d)
// streams without locales: what needs no formatting of numbers works
static long vp_noimpl[8];   // a locale without facets
extern "C" {
void vp_loc(void** l) __asm__("_ZNSt6localeC1Ev"); void vp_loc(void** l) { *l = vp_noimpl; }
void vp_loccopy(void** l, void** o) __asm__("_ZNSt6localeC1ERKS_"); void vp_loccopy(void** l, void** o) { *l = *o; }
void vp_locd(void*) __asm__("_ZNSt6localeD1Ev"); void vp_locd(void*) {}
unsigned long vp_locid(const void*) __asm__("_ZNKSt6locale2id5_M_idEv"); unsigned long vp_locid(const void*) { return 0; }
void vp_ios(char* p) __asm__("_ZNSt8ios_baseC2Ev"); void vp_ios(char* p) { *(void**)(p + 208) = vp_noimpl; }
void vp_iosd(void*) __asm__("_ZNSt8ios_baseD2Ev"); void vp_iosd(void*) {}
void vp_basic_init(char* p, void* b) __asm__("_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E");
void vp_basic_init(char* p, void* b) { *(long*)(p + 8) = 6; *(long*)(p + 16) = 0; *(int*)(p + 24) = 0x1002; *(int*)(p + 28) = 0; *(int*)(p + 32) = b ? 0 : 1; for (int o = 216; o < 264; o += 8) *(void**)(p + o) = nullptr; *(void**)(p + 232) = b; }
void vp_iosinit(void*) __asm__("_ZNSt8ios_base7_M_initEv"); void vp_iosinit(void*) {}
}
static_assert(sizeof(std::ios_base) == 216 && sizeof(std::ios) == 264, "the locale is the last member");
#endif
namespace {
struct OutBuf : std::streambuf {
  std::streamsize xsputn(const char* p, std::streamsize n) override { vp_poco::text.append(p, (size_t)n); return n; }
  int_type overflow(int_type c) override { vp_poco::text.push_back((char)c); return c; }
};
struct InBuf : std::streambuf { int_type underflow() override { return traits_type::eof(); } };
struct Out : std::ostream { OutBuf b; Out() : std::ostream(&b) {} };
struct In : std::istream { InBuf b; In() : std::istream(&b) {} };
}
#ifdef VP_SYM
// everything goes into the buffer as it is; numbers are not spelled
static void* vp_put(void* o, const char* p, long n) { vp_poco::text.append(p, (size_t)n); return o; }
extern "C" {
void* vp_os_insert(void* o, const char* p, long n) __asm__("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"); void* vp_os_insert(void* o, const char* p, long n) { return vp_put(o, p, n); }
void* vp_os_cstr(void* o, const char* p) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"); void* vp_os_cstr(void* o, const char* p) { return vp_put(o, p, (long)__builtin_strlen(p)); }
void* vp_os_write(void* o, const char* p, long n) __asm__("_ZNSo5writeEPKcl"); void* vp_os_write(void* o, const char* p, long n) { return vp_put(o, p, n); }
void* vp_os_put(void* o, char c) __asm__("_ZNSo3putEc"); void* vp_os_put(void* o, char c) { return vp_put(o, &c, 1); }
void* vp_os_flush(void* o) __asm__("_ZNSo5flushEv"); void* vp_os_flush(void* o) { return o; }
void* vp_os_l(void* o, long) __asm__("_ZNSo9_M_insertIlEERSoT_"); void* vp_os_l(void* o, long) { return vp_put(o, "#", 1); }
void* vp_os_m(void* o, unsigned long) __asm__("_ZNSo9_M_insertImEERSoT_"); void* vp_os_m(void* o, unsigned long) { return vp_put(o, "#", 1); }
void* vp_os_d(void* o, double) __asm__("_ZNSo9_M_insertIdEERSoT_"); void* vp_os_d(void* o, double) { return vp_put(o, "#", 1); }
void* vp_os_b(void* o, bool) __asm__("_ZNSo9_M_insertIbEERSoT_"); void* vp_os_b(void* o, bool) { return vp_put(o, "#", 1); }
void* vp_os_i(void* o, int) __asm__("_ZNSolsEi"); void* vp_os_i(void* o, int) { return vp_put(o, "#", 1); }
}
#endif
namespace Poco {
namespace JSON {
void Object::stringify(std::ostream&, unsigned, int) const { vp_poco::last = std::make_shared<Object>(*this); }
void Array::stringify(std::ostream&, unsigned, int) const {}
Dynamic::Var Parser::parse(std::istream&) { return r = vp_poco::document(); }
Dynamic::Var Parser::parse(const std::string&) { return r = vp_poco::document(); }
}
namespace Net {
std::istream& HTTPServerRequest::stream() { static auto* in = new In(); return *in; }
std::ostream& HTTPServerResponse::send() { vp_sends++; vp_sent = vp_status; vp_sent_type = vp_type; static auto* o = new Out(); return *o; }
}
}
