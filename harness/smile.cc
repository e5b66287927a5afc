// Smile payloads: an independent decoder reads back what the real encoder produced.
#include "harness.h"
#define private public
#include "spectator/smile.h"
#undef private
#include <string_view>
using spectator::SmilePayload;
#include "smiledec.h"
static Dec begin(SmilePayload& s, spectator::CompressedResult& r) { r = s.Result(); return beginRaw(r.data, r.size); }
HARNESS(h_smile_int) {
  SmilePayload s; s.Init();
  int sgn = (int)sym_pick("kind", 2);
  uint64_t n;
  if (sgn == 0) { n = sym_range("n", 0, sym_param("maxn", (1ll << 31) - 1)); s.Append((size_t)n); }
  else { n = sym_range("n", 0, 0x7fffffff); s.Append((int)n); }
  s.Append((size_t)3);
  spectator::CompressedResult r; Dec d = begin(s, r);
  uint64_t v = decInt(d, 0);
  sym_observe("raw", r.data, r.size);
  sym_assert(v == n, "decoded integer equals the encoded one");
  sym_assert(decInt(d, 0) == 3, "the next value is intact");
  end(d);
  sym_reach("int");
}
HARNESS(h_smile_double) {
  SmilePayload s; s.Init();
  double x = sym_double("x"); s.Append(x);
  spectator::CompressedResult r; Dec d = begin(s, r);
  sym_assert(d.get() == 0x29, "double value is introduced by the 64-bit float token");
  uint64_t l = 0; int okb = 1;
  uint8_t b0 = d.get(); l = b0; okb = sym_and(okb, b0 <= 1);
  for (int i = 1; i < 10; i++) { uint8_t b = d.get(); okb = sym_and(okb, b < 0x80); l = (l << 7) | b; }
  sym_assert(okb, "double bytes are seven-bit groups");
  sym_assert(l == dbits(x), "decoded double has the same bits");
  end(d); sym_reach("double"); sym_observe("raw", r.data, r.size);
}
HARNESS(h_smile_string) {
  static char buf[300];
  size_t n = sym_pick("len", (uint64_t)sym_param("maxlen", 72));
  sym_bytes(buf, n, "s");
  int ascii = 1; for (size_t i = 0; i < n; i++) ascii = sym_and(ascii, (unsigned char)buf[i] < 0x80);
  sym_assume(ascii);   // contract of Append(string): ascii only
  SmilePayload s; s.Init(); s.Append(std::string_view(buf, n)); s.Append((size_t)7);
  spectator::CompressedResult r; Dec d = begin(s, r);
  uint8_t t = d.get(); size_t len = 0; bool lng = false;
  if (t == 0x20) len = 0;
  else if (t >= 0x40 && t <= 0x5F) len = t - 0x40 + 1;
  else if (t >= 0x60 && t <= 0x7F) len = t - 0x60 + 33;
  else if (t == 0xE0) { lng = true; while (d.i + len < d.n && d.p[d.i + len] != 0xFC) len++; }
  else sym_fail("string value is introduced by a string token");
  sym_assert(len == n, "decoded string has the same length");
  int eq = 1; for (size_t i = 0; i < n; i++) eq = sym_and(eq, d.get() == (uint8_t)buf[i]);
  sym_assert(eq, "decoded string has the same bytes");
  if (lng) { sym_assert(d.get() == 0xFC, "long string is terminated"); sym_reach("long"); } else sym_reach("short");
  sym_assert(decInt(d, 0) == 7, "the next value is intact");
  end(d); sym_observe("raw", r.data, r.size);
}
