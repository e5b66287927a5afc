// Streaming and one-shot compression over a model of the compression library (identity codec).
#include "harness.h"
#include "spectator/compressed_buffer.h"
#include "spectator/gzip.h"
#include <string_view>
#include <utility>
using namespace spectator;
extern "C" { long zm_payload(const unsigned char*, size_t); extern int zm_inits, zm_ends, zm_nondet, zm_wbits, zm_fail_init; }
struct Want { uint8_t b[96]; size_t n = 0; };
static void check(CompressedBuffer& c, const Want& w, const char* what) {
  auto r = c.Result();
  long n = zm_payload(r.data, r.size);
  sym_assert(n >= 0, "the result is a complete compressed stream");
  sym_assert((size_t)n == w.n, "the result holds as many bytes as were appended");
  int eq = 1; for (size_t i = 0; i < w.n; i++) eq = sym_and(eq, r.data[2 + i] == w.b[i]);
  sym_assert(eq, "the result holds the appended bytes in order");
  auto r2 = c.Result(); sym_assert(r2.data == r.data && r2.size == r.size, "asking again gives the same result");
  sym_assert(zm_inits == zm_ends, "a finished stream is released"); sym_assert(zm_wbits == 15 + 16, "the stream is a gzip stream");
  sym_observe("raw", r.data, r.size); sym_reach(what);
}
static void piece(CompressedBuffer& c, Want& w, size_t n, bool text) {
  uint8_t* p = w.b + w.n; sym_bytes(p, n, "piece"); w.n += n;
  if (text) { c.Append(std::string_view((const char*)p, n)); return; }
  switch (n) {
    case 1: c.Append(p[0]); break; case 2: c.Append(p[0], p[1]); break; case 3: c.Append(p[0], p[1], p[2]); break;
    case 4: c.Append(p[0], p[1], p[2], p[3]); break; case 5: c.Append(p[0], p[1], p[2], p[3], p[4]); break; default: c.Append(p[0], p[1], p[2], p[3], p[4], p[5]);
  }
}
static const size_t kIn[] = {0, 1, 3, 8}, kOut[] = {0, 1, 5, 24}, kStep[] = {2, 3, 8}, kLen[] = {0, 1, 2, 5, 9};
// histories of text pieces; the library may hold output back or give it out as it likes
HARNESS(h_cbuf) {
  zm_nondet = 1; { size_t ci = kIn[sym_pick("in", 4)], co = kOut[sym_pick("out", 4)], cs = kStep[sym_pick("step", 3)]; CompressedBuffer c(ci, co, cs);
  const int K = (int)sym_param("k", 2), R = (int)sym_param("rounds", 1);
  for (int r = 0; r < R; r++) {
    c.Init(); Want w; for (int i = 0; i < K; i++) piece(c, w, kLen[sym_pick("len", 5)], true);
    check(c, w, r ? "again" : "first");
  } }
  sym_assert(zm_inits == zm_ends, "nothing is left open");
}
// every way to append, at every fill of the input chunk
HARNESS(h_cbuf_append) {
  { size_t ci = kIn[1 + sym_pick("in", 3)], co = kOut[sym_pick("out", 4)], cs = kStep[sym_pick("step", 3)]; CompressedBuffer c0(ci, co, cs); CompressedBuffer c(std::move(c0));
  for (int r = 0; r < 2; r++) { c.Init(); Want w; size_t n = sym_pick("fill", 3); if (n) piece(c, w, n, false); n = 1 + sym_pick("bytes", 6); piece(c, w, n, false); piece(c, w, 1, false); check(c, w, r ? "again" : "first"); if (n != 4) break; }
  }
  sym_assert(zm_inits == zm_ends, "nothing is left open");
}
// dropped without asking for the result
HARNESS(h_cbuf_drop) {
  zm_nondet = 1; int64_t h0;
  { CompressedBuffer warm(0, 0, 2); } h0 = sym_heap_live();
  { size_t ci = kIn[sym_pick("in", 4)], co = kOut[sym_pick("out", 4)], cs = kStep[sym_pick("step", 3)]; CompressedBuffer c(ci, co, cs); c.Init(); Want w; if (sym_pick("used", 2)) piece(c, w, 5, true); }
  sym_assert(zm_inits == zm_ends && sym_heap_live() == h0, "nothing is left open"); sym_reach("done");
}
HARNESS(h_gzip) {
  size_t n = sym_pick("n", (uint64_t)sym_param("n", 6)), cap = sym_pick("cap", 16);
  uint8_t *src = new uint8_t[n], *dst = new uint8_t[cap ? cap : 1]; sym_bytes(src, n, "src");
  zm_fail_init = (int)sym_pick("fail", 2);
  size_t len = cap; int err = gzip_compress(dst, &len, src, n);
  sym_assert(zm_inits == zm_ends, "compression releases its stream");
  if (zm_fail_init) { sym_assert(err != Z_OK, "a failed start is an error"); sym_reach("no start"); }
  else if (cap < n + 7) { sym_assert(err != Z_OK, "output that does not fit is an error"); sym_reach("too small"); }
  else {
    sym_assert(err == Z_OK && len == n + 7, "compression succeeds when the output fits");
    long k = zm_payload(dst, len); sym_assert(k == (long)n, "the output is a complete stream");
    size_t cap2 = sym_pick("cap2", 8), len2 = cap2; uint8_t* back = new uint8_t[cap2 ? cap2 : 1];
    int e2 = gzip_uncompress(back, &len2, dst, len);
    if (cap2 < n || cap2 == 0) { if (cap2 < n) { sym_assert(e2 != Z_OK, "text that does not fit is an error"); sym_reach("short"); } }
    else { sym_assert(e2 == Z_OK && len2 == n, "decompression is the inverse"); int eq = 1; for (size_t i = 0; i < n; i++) eq = sym_and(eq, back[i] == src[i]); sym_assert(eq, "decompression gives the text back"); sym_reach("round trip"); }
    delete[] back;
  }
  sym_assert(zm_inits == zm_ends, "decompression releases its stream");
  delete[] src; delete[] dst;
}
// any bytes, any room
HARNESS(h_gunzip) {
  size_t n = sym_pick("n", (uint64_t)sym_param("n", 12)), cap = sym_pick("cap", 6);
  uint8_t *src = new uint8_t[n], *dst = new uint8_t[cap + 1]; sym_bytes(src, n, "src");
  size_t len = cap; int err = gzip_uncompress(dst, &len, src, n);
  long k = zm_payload(src, n);
  if (err == Z_OK) { sym_assert(k >= 0 && len == (size_t)k && len <= cap, "only a complete stream is accepted"); int eq = 1; for (long i = 0; i < k; i++) eq = sym_and(eq, dst[i] == src[2 + i]); sym_assert(eq, "decompression gives the text back"); sym_reach("good"); }
  else { sym_assert(k < 0 || (size_t)k > cap, "a complete stream that fits is accepted"); sym_reach("bad"); }
  sym_assert(zm_inits == zm_ends, "decompression releases its stream");
  delete[] src; delete[] dst;
}
