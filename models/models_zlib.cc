// zlib stand-in honouring the documented deflate/inflate contract, with an identity "codec":
// stream = 1f 8b, the input bytes, 'E', byte count (4, little endian). How much output a call yields is
// the environment's choice (sym_range) when zm_nondet is set. Used symbolically and natively.
#include "sym.h"
#include <zlib.h>
#include <cstdlib>
#include <cstring>
extern "C" {
int zm_inits, zm_ends, zm_nondet, zm_wbits, zm_fail_init, zm_overread;
static const unsigned kCap = 4096;
struct internal_state { int kind; int phase; int npend; unsigned total; int finished; int outpos; unsigned char pend[kCap]; };
int deflateInit2_(z_streamp s, int level, int method, int wbits, int mem, int strategy, const char* ver, int sz) {
  if (zm_fail_init) return Z_MEM_ERROR;
  if (!sym_tid()) { zm_wbits = wbits; zm_inits++; }
  internal_state* st = (internal_state*)malloc(sizeof(internal_state));
  st->kind = 1; st->phase = 0; st->total = 0; st->finished = 0; st->outpos = 0; st->npend = 2;
  st->pend[0] = 0x1f; st->pend[1] = 0x8b;
  s->state = st; s->total_in = 0; s->total_out = 0; s->msg = nullptr;
  return Z_OK;
}
static void emit(z_streamp s, internal_state* st, unsigned n) {
  memcpy(s->next_out, st->pend + st->outpos, n);
  s->next_out += n; s->avail_out -= n; s->total_out += n; st->outpos += n;
  if (st->outpos == st->npend) st->outpos = st->npend = 0;
}
int deflate(z_streamp s, int flush) {
  internal_state* st = s->state;
  if (!st || st->kind != 1) return Z_STREAM_ERROR;
  if (s->next_out == nullptr || (s->avail_in != 0 && s->next_in == nullptr) || (st->finished && flush != Z_FINISH)) return Z_STREAM_ERROR;
  if (s->avail_out == 0) return Z_BUF_ERROR;
  unsigned in0 = s->avail_in, out0 = s->avail_out; int pend0 = st->npend - st->outpos;
  for (;;) {
    // take input while there is room for it
    unsigned room = kCap - 16 - st->npend, n = s->avail_in < room ? s->avail_in : room;
    if (n) { memcpy(st->pend + st->npend, s->next_in, n); st->npend += n; s->next_in += n; s->avail_in -= n; s->total_in += n; st->total += n; }
    if (s->avail_in == 0) break;
    unsigned k = (unsigned)(st->npend - st->outpos); if (k > s->avail_out) k = s->avail_out;
    emit(s, st, k);
    if (s->avail_out == 0) return Z_OK;
  }
  if (flush == Z_FINISH) {
    if (!st->finished) { st->finished = 1; st->pend[st->npend++] = 'E'; for (int i = 0; i < 4; i++) st->pend[st->npend++] = (unsigned char)(st->total >> (8 * i)); }
    unsigned k = (unsigned)(st->npend - st->outpos); if (k > s->avail_out) k = s->avail_out;
    emit(s, st, k);
    return st->npend == 0 ? Z_STREAM_END : Z_OK;
  }
  // without a flush request any part of the pending bytes may come out
  unsigned k = (unsigned)(st->npend - st->outpos); if (k > s->avail_out) k = s->avail_out;
  if (k && zm_nondet) k = (unsigned)sym_concretize(sym_range("zout", 0, k < 3 ? k : 3)) * (k < 3 ? 1 : k / 3);
  emit(s, st, k);
  if (in0 == s->avail_in && out0 == s->avail_out && pend0 == st->npend - st->outpos) return Z_BUF_ERROR;
  return Z_OK;
}
int deflateEnd(z_streamp s) { if (!s->state) return Z_STREAM_ERROR; int r = s->state->kind == 1 && (s->total_in == 0 || s->state->finished) ? Z_OK : Z_DATA_ERROR; free(s->state); s->state = nullptr; if (!sym_tid()) zm_ends++; return r; }
int deflateReset(z_streamp s) { internal_state* st = s->state; if (!st) return Z_STREAM_ERROR; st->total = 0; st->finished = 0; st->outpos = 0; st->npend = 2; st->pend[0] = 0x1f; st->pend[1] = 0x8b; s->total_in = s->total_out = 0; return Z_OK; }
uLong deflateBound(z_streamp, uLong n) { return n + 7; }
// the bound is for a zlib wrapper, twelve bytes less than a gzip stream may need
uLong compressBound(uLong n) { return n > 5 ? n - 5 : 0; }
int inflateInit2_(z_streamp s, int wbits, const char* ver, int sz) {
  if (zm_fail_init) return Z_MEM_ERROR;
  if (!sym_tid()) { zm_wbits = wbits; zm_inits++; }
  internal_state* st = (internal_state*)malloc(sizeof(internal_state)); st->kind = 2; st->phase = 0; st->total = 0; st->finished = 0; st->npend = 0; st->outpos = 0;
  s->state = st; s->total_in = 0; s->total_out = 0; s->msg = nullptr; return Z_OK;
}
int inflate(z_streamp s, int flush) {
  internal_state* st = s->state;
  if (!st || st->kind != 2 || s->next_out == nullptr || (s->next_in == nullptr && s->avail_in)) return Z_STREAM_ERROR;
  if (st->finished) return Z_STREAM_END;
  if (st->phase == 0) {
    if (s->avail_in < 2) { s->total_in += s->avail_in; s->next_in += s->avail_in; s->avail_in = 0; return Z_BUF_ERROR; }
    if (s->next_in[0] != 0x1f || s->next_in[1] != 0x8b) return Z_DATA_ERROR;
    s->next_in += 2; s->avail_in -= 2; s->total_in += 2; st->phase = 1;
  }
  // the whole stream is handed over at once by its only caller: the last five bytes are the trailer
  unsigned n = s->avail_in >= 5 ? s->avail_in - 5 : s->avail_in;
  unsigned k = n < s->avail_out ? n : s->avail_out;
  if (k) memcpy(s->next_out, s->next_in, k);
  s->next_in += k; s->avail_in -= k; s->total_in += k; s->next_out += k; s->avail_out -= k; s->total_out += k; st->total += k;
  if (k < n) return Z_BUF_ERROR;
  if (s->avail_in < 5) { return Z_BUF_ERROR; }
  int ok = s->next_in[0] == 'E'; for (int i = 0; i < 4; i++) ok = sym_and(ok, s->next_in[1 + i] == (unsigned char)(st->total >> (8 * i)));
  s->next_in += 5; s->avail_in -= 5; s->total_in += 5;
  if (!ok) return Z_DATA_ERROR;
  st->finished = 1; return Z_STREAM_END;
}
int inflateEnd(z_streamp s) { if (!s->state) return Z_STREAM_ERROR; free(s->state); s->state = nullptr; zm_ends++; return Z_OK; }
// the harness's view of a finished stream: payload pointer and length, or -1
long zm_payload(const unsigned char* d, size_t n) {
  if (n < 7 || d[0] != 0x1f || d[1] != 0x8b || d[n - 5] != 'E') return -1;
  unsigned t = 0; for (int i = 0; i < 4; i++) t |= (unsigned)d[n - 4 + i] << (8 * i);
  return t == n - 7 ? (long)t : -1;
}
}
