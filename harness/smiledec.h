// Reads Smile documents back, by the format's definition.
#pragma once
#include "harness.h"
extern "C" long zm_payload(const unsigned char*, size_t);
struct Dec { const uint8_t* p; size_t n, i;
  uint8_t get() { if (i >= n) sym_fail("payload ends inside a value"); return p[i++]; } };
// one integer, per the Smile format: small ints 0xC0..0xDF, 0x24 32-bit vint, 0x25 64-bit vint (zigzag)
static uint64_t decInt(Dec& d, int wide) {
  uint8_t t = d.get();
  if (t >= 0xC0 && t <= 0xDF) { uint64_t z = t - 0xC0; return (z >> 1) ^ (0 - (z & 1)); }
  sym_assert(t == 0x24 || t == 0x25, "integer value is introduced by an integer token");
  uint64_t z = 0; int k = 0;
  for (;;) { uint8_t b = d.get(); if (b & 0x80) { z = (z << 6) | (b & 0x3f); sym_assert((b & 0x40) == 0, "last byte of a variable-length integer carries six bits"); break; } z = (z << 7) | b; k++; if (k > 10) sym_fail("variable-length integer too long"); }
  (void)wide;
  return (z >> 1) ^ (0 - (z & 1));
}
static Dec beginRaw(const uint8_t* p, size_t size) {
  long n = zm_payload(p, size);
  sym_assert(n >= 6, "payload is a complete compressed stream");
  Dec d{p + 2, (size_t)n, 0};
  uint8_t h0 = d.get(), h1 = d.get(), h2 = d.get(), h3 = d.get();
  sym_assert(sym_and(sym_and(h0 == ':', h1 == ')'), sym_and(h2 == '\n', h3 == 0)), "payload starts with the Smile header without optional features");
  sym_assert(d.get() == 0xF8, "payload is an array");
  return d;
}
static void end(Dec& d) { sym_assert(d.get() == 0xF9, "array is closed after the last value"); sym_assert(d.i == d.n, "nothing follows the array"); }
