// The kernel's files as the daemon reads them.
#include "harness.h"
#include "vp_file.h"
#include "server/proc_utils.h"
#include <string>
static const int kDef = 16 * 1024 * 1024;
static bool blank(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
// the number a file holds: blanks around an optionally signed 32-bit decimal; reads up to a NUL
static bool number(const char* s, size_t n, long long* out) {
  size_t e = 0; while (e < n && s[e]) e++;
  size_t b = 0; while (b < e && blank(s[b])) b++;
  while (e > b && blank(s[e - 1])) e--;
  bool neg = false; if (b < e && (s[b] == '+' || s[b] == '-')) neg = s[b++] == '-';
  if (b >= e) return false;
  long long v = 0;
  for (; b < e; b++) { if (s[b] < '0' || s[b] > '9') return false; v = v * 10 + (s[b] - '0'); if (v > 3000000000ll) return false; }
  if (neg) v = -v;
  if (v > 2147483647ll || v < -2147483648ll) return false;
  *out = v; return true;
}
static VpFile F;
HARNESS(h_bufsize) {
  size_t N = (size_t)sym_param("n", 4); static const size_t lens[] = {4094, 4095, 4096, 4097, 6000};
  F.mode = (int)sym_pick("mode", 3);
  size_t pick = sym_pick("len", N + 1 + 5), len = pick <= N ? pick : lens[pick - N - 1];
  static char data[6000]; memset(data, ' ', sizeof data);
  if (F.mode == 0) {
    static const char* const pre[] = {"", "21474836", "9"}; size_t p = pick <= N ? (size_t)sym_pick("pre", 2) : 2, pl = strlen(pre[p]);
    memcpy(data, pre[p], pl);
    if (pick <= N) { sym_bytes(data + pl, len, "s"); len += pl; } else sym_bytes(data + pl, 2, "s");
  }
  F.data = data; F.len = len; vp_file(&F);
  int got = spectatord::max_buffer_size(vp_file_name(&F));
  sym_assert(vp_files_open() == 0, "the file is closed");
  long long want;
  if (F.mode != 0) { sym_assert(got == kDef, "an unreadable file gives the default"); sym_reach("unreadable"); }
  else {
    bool ok = number(data, len, &want);
    if (ok) sym_assert(got == want, "the size is the number in the file"); else sym_assert(got == kDef, "no number gives the default");
    if (ok) sym_reach(pick <= N ? "number" : "long"); else sym_reach("no number");
  }
  sym_observe_u64("got", (uint64_t)(int64_t)got);
}
static char* out; static void put(const char* s) { size_t n = strlen(s); memcpy(out, s, n); out += n; }
// n hex digits, of which the masked ones are symbolic; returns the value
static uint64_t hex(const char* name, int n, unsigned mask, uint64_t fixed) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) {
    unsigned d; if (mask >> i & 1) d = (unsigned)sym_u8(name) & 15u; else d = fixed >> (4 * (n - 1 - i)) & 15;
    if (mask >> i & 1) { if (d < 10) *out++ = (char)('0' + d); else *out++ = (char)('A' + d - 10); } else *out++ = "0123456789ABCDEF"[d];
    v = v << 4 | d;
  }
  return v;
}
static uint64_t dec(const char* name, const char* head, int n) {
  uint64_t v = 0; for (const char* p = head; *p; p++) { *out++ = *p; v = v * 10 + (uint64_t)(*p - '0'); }
  for (int i = 0; i < n; i++) { unsigned d = (unsigned)sym_range(name, 0, 9); *out++ = (char)('0' + d); v = v * 10 + d; }
  return v;
}
// lines: the kernel's layout (any number of blanks), truncated lines, empty ones; the first line is a heading
HARNESS(h_udpinfo) {
  size_t L = (size_t)sym_param("lines", 2), sym = (size_t)sym_param("digits", 1); static char text[4000]; out = text;
  int port = (int)sym_pick("port", 3); port = port == 0 ? 1234 : port == 1 ? 0 : 65535;
  F.mode = (int)sym_pick("mode", 3);
  bool want = false; uint64_t wrx = 0, wdrop = 0;
  size_t head = F.mode ? 0 : sym_pick("head", 3);
  if (head == 1) put("  sl  local_address rem_address   st tx_queue rx_queue tr tm->when retrnsmt   uid  timeout inode ref pointer drops\n");
  if (head == 2) { put("  7: 00000000:04D2 00000000:0000 07 00000000:00000001 00:00000000 00000000  0 0 1 2 0 3\n"); }   // the first line counts as a heading whatever it holds
  if (head > 0) for (size_t l = 0; l < L; l++) {
    size_t kind = sym_pick("kind", 7);
    if (kind == 0) put("\n");
    else if (kind == 1) { put("  9: 00000000:"); hex("p", 4, 1u, 0x4D2); put(" 00000000:0000 07 00000000:00000009 00:00000000 00000000 1 2 3 4 5\n"); }   // one field short
    else {
      put(kind == 3 ? "9999: 00000000000000000000000001000000:" : "  9: 0100007F:");
      static const uint64_t ports[] = {0x04D2, 0x0000, 0xFFFF}; size_t which = sym_pick("of", 3);
      uint64_t pt = hex("p", 4, sym > 1 ? 9u : 8u, ports[which]);
      put(" 00000000:0000 07 "); hex("tx", 8, 0, 0x01234567); put(":"); uint64_t rx = hex("rx", 8, 1u | (sym > 1 ? 0x80u : 0), 0x0000A0F3);
      put(kind == 4 ? " 00:00000000    00000000     1000" : " 00:00000000 00000000  1000"); put(" 0 12345 2 ffff8d1c "); uint64_t dr = dec("d", sym > 1 ? "922337203" : "1", 1);
      if (kind == 5) put(" more: fields"); if (kind != 6 || l + 1 < L) put("\n");
      if (!want && (int)pt == port) { want = true; wrx = rx; wdrop = dr; }
    }
  }
  F.data = text; F.len = (size_t)(out - text); vp_file(&F);
  auto got = spectatord::udp_info(port, vp_file_name(&F));
  sym_assert(vp_files_open() == 0, "the file is closed");
  if (F.mode != 0) { sym_assert(!got, "an unreadable file gives nothing"); sym_reach("unreadable"); return; }
  sym_assert(got.has_value() == want, "the line of the port is found when there is one");
  if (got) { sym_assert((uint64_t)got->rx_queue_bytes == wrx, "the queue length of that line"); sym_assert((uint64_t)got->num_dropped == wdrop, "the drop count of that line"); sym_reach("found");
    sym_observe_u64("rx", (uint64_t)got->rx_queue_bytes); sym_observe_u64("dr", (uint64_t)got->num_dropped); }
  else sym_reach("absent");
}
