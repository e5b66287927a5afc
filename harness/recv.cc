// The receive loops of the two datagram servers.
#include "harness.h"
#include "asio.hpp"
#include "server/udp_server.h"
#include "server/local_server.h"
#include <memory>
#include <string>
static int calls; static char* got; static size_t want_n; static const char* want; static bool look;
static std::optional<std::string> onMsg(char* p) {
  calls++; got = p;
  if (look) {
    int same = 1; for (size_t i = 0; i < want_n && i < 4; i++) same = sym_and(same, p[i] == want[i]);
    for (size_t i = want_n < 4 ? 0 : want_n - 4; i < want_n; i++) same = sym_and(same, p[i] == want[i]);
    sym_assert(same, "the handler sees the bytes of the datagram"); sym_assert(p[want_n] == 0, "the text ends with the datagram");
    for (size_t i = 0; i <= want_n; i++) p[i] = 0;      // the handler may change the text
    if (sym_pick("bad", 2)) return std::string("bad");
  }
  return {};
}
static spectatord::UdpServer* U; static spectatord::LocalServer* L; static asio::io_context* io;
static void start() {
  io = new asio::io_context; size_t kind = sym_pick("server", 3); vp_asio::setopt_fails = kind < 2 && sym_pick("opt", 2);
  if (kind < 2) { U = new spectatord::UdpServer(*io, kind == 1, 1234, onMsg); U->Start(); sym_reach(kind ? "udp4" : "udp"); }
  else { L = new spectatord::LocalServer(*io, "/tmp/x", onMsg); L->Start(); sym_reach("local"); }
  sym_assert(vp_asio::receives == 1, "starting a server starts one receive");
}
static void finish() { vp_asio::pending.handler = nullptr; delete U; delete L; delete io; }
static void deliver(const std::error_code& e, size_t n) { auto r = vp_asio::pending.handler; r(e, n); }
// every length the kernel may report, as one value
HARNESS(h_recv_any) {
  start();
  sym_assert(vp_asio::pending.size > 65507, "a datagram of the largest UDP size fits");
  uint64_t n = sym_range("n", 0, vp_asio::pending.size); int err = (int)sym_pick("err", 2); calls = 0;
  char* base = (char*)vp_asio::pending.data;
  deliver(err ? std::make_error_code(std::errc::connection_refused) : std::error_code(), n);
  if (err) { sym_assert(calls == 0, "an error is not a message"); sym_reach("error"); }
  else if (n == 0) { sym_assert(calls == 0, "an empty datagram is no message"); sym_reach("empty"); }
  else { sym_assert(calls == 1 && got == base, "a datagram is handed on once"); sym_reach("message"); }
  sym_assert(vp_asio::receives == 2 && vp_asio::pending.data == base, "the next receive is started");
  finish();
}
// sequences of datagrams and errors; the buffer is reused
HARNESS(h_recv_seq) {
  start(); look = true; size_t K = (size_t)sym_param("k", 3);
  for (size_t i = 0; i < K; i++) {
    size_t cap = vp_asio::pending.size; const size_t lens[] = {0, 1, 3, 100, 65507, cap - 1, cap}; size_t n = lens[sym_pick("len", 7)]; int err = (int)sym_pick("err", 2);
    char* b = (char*)vp_asio::pending.data; char* d = new char[n + 1]; memset(d, 'x', n + 1);
    if (n > 0) { sym_bytes(d, 1, "b0"); sym_bytes(d + n - 1, 1, "b1"); }
    memcpy(b, d, n); want = d; want_n = n; calls = 0;
    deliver(err ? std::make_error_code(std::errc::message_size) : std::error_code(), n);
    sym_assert(calls == (!err && n > 0 ? 1 : 0), "exactly the datagrams received are handed on, once");
    sym_assert(vp_asio::receives == (int)i + 2, "every receive is followed by the next");
    delete[] d; sym_reach(err ? "error" : n ? "message" : "empty");
  }
  finish();
}
