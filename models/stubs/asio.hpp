// The parts of asio the daemon uses, as a world a harness drives: sockets hand their pending receive to
// the harness (vp_asio::pending), posted jobs run through vp_asio_post.
#pragma once
#include <array>
#include <cstddef>
#include <csignal>
#include <sys/stat.h>
#include <unistd.h>
#include <functional>
#include <string>
#include <string_view>
#include <system_error>
#include <vector>
namespace vp_asio {
struct Recv { void* data; size_t size; std::function<void(const std::error_code&, size_t)> handler; };
extern Recv pending;       // the outstanding receive
extern int receives;       // how many were started
extern int rcvbuf;         // last receive buffer size option
extern bool setopt_fails;  // whether the kernel refuses the option
}
void vp_asio_pool(void* pool, size_t threads);
void vp_asio_post(void* pool, std::function<void()> job);
void vp_asio_pool_end(void* pool);
namespace asio {
class io_context { public: void run() {} void stop() {} };
class thread_pool { public: explicit thread_pool(size_t n) { vp_asio_pool(this, n); } ~thread_pool() { vp_asio_pool_end(this); } void join() {} void stop() {} };
template <class F> void post(thread_pool& p, F&& f) { vp_asio_post(&p, std::function<void()>(std::forward<F>(f))); }
struct mutable_buffer { void* data_; size_t size_; void* data() const { return data_; } size_t size() const { return size_; } };
template <class T, size_t N> mutable_buffer buffer(std::array<T, N>& a) { return {a.data(), N * sizeof(T)}; }
template <class T, size_t N> mutable_buffer buffer(std::array<T, N>& a, size_t m) { return {a.data(), m < N * sizeof(T) ? m : N * sizeof(T)}; }
template <class T, size_t N> mutable_buffer buffer(T (&a)[N]) { return {a, N * sizeof(T)}; }
inline mutable_buffer buffer(void* p, size_t n) { return {p, n}; }
template <class T> mutable_buffer buffer(std::vector<T>& a) { return {a.data(), a.size() * sizeof(T)}; }
inline mutable_buffer buffer(const mutable_buffer& b, size_t m) { return {b.data_, m < b.size_ ? m : b.size_}; }
struct signal_set { template <class... A> signal_set(io_context&, A...) {} template <class F> void async_wait(F&&) {} };
struct socket_base { struct receive_buffer_size { int v; explicit receive_buffer_size(int x) : v(x) {} int value() const { return v; } }; struct reuse_address { explicit reuse_address(bool) {} }; };
struct vp_socket { void* impl[4] = {};
  template <class B, class F> void async_receive(const B& b, F&& f) { vp_asio::pending = {b.data(), b.size(), std::function<void(const std::error_code&, size_t)>(std::forward<F>(f))}; vp_asio::receives++; }
  template <class B, class P, class F> void async_receive_from(const B& b, P&, F&& f) { async_receive(b, std::forward<F>(f)); }
  void set_option(const socket_base::receive_buffer_size& o) { vp_asio::rcvbuf = o.v; if (vp_asio::setopt_fails) throw std::runtime_error("setsockopt"); }
  template <class O> void set_option(const O&) {}
  void close() {}
};
namespace ip {
struct udp { int f; static udp v4() { return {4}; } static udp v6() { return {6}; }
  struct endpoint { int fam; int port; endpoint() : fam(4), port(0) {} endpoint(const udp& u, int n) : fam(u.f), port(n) {} };
  struct socket : vp_socket { socket(io_context&, endpoint) {} }; };
}
namespace local {
struct datagram_protocol { struct endpoint { std::string path; endpoint() {} explicit endpoint(std::string_view p) : path(p) {} };
  struct socket : vp_socket { socket(io_context&, endpoint) {} }; };
}
}  // namespace asio
