#include "interpose.h"
#include <dlfcn.h>
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <atomic>

static IpCfg g_cfg;
static std::atomic<bool> g_on{ false };
static std::atomic<uint64_t> g_threads{ 0 };
static std::atomic<long> g_sent{ 0 }, g_recv{ 0 };
static void (*g_die)() = nullptr;
static thread_local uint64_t t_state = 0;
static thread_local int t_eintr = 0;

extern "C" void ip_set(const IpCfg* c) { g_cfg = *c; g_on = true; }
extern "C" void ip_on_die(void (*f)()) { g_die = f; }
extern "C" long ip_sent() { return g_sent; }
extern "C" long ip_received() { return g_recv; }

static uint64_t rnd()
{
  if (t_state == 0) t_state = (g_cfg.seed * 0x9E3779B97F4A7C15ull) ^ ((g_threads++ + 1) * 0xD1B54A32D192ED03ull) | 1;
  t_state ^= t_state << 13; t_state ^= t_state >> 7; t_state ^= t_state << 17;
  return t_state >> 11;
}
static bool chance(int pm) { return pm > 0 && int(rnd() % 1000) < pm; }
static void nap(long us)
{
  struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
  nanosleep(&ts, nullptr);
}
template <typename F> static F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
#define REAL(n) static auto r_##n = real<decltype(&n)>(#n)

static bool unixsock(int fd)
{
  if (!g_on) return false;
  int dom = 0; socklen_t l = sizeof dom;
  int e = errno;
  bool r = getsockopt(fd, SOL_SOCKET, SO_DOMAIN, &dom, &l) == 0 && dom == AF_UNIX;
  errno = e;
  return r;
}
static void before() { if (chance(g_cfg.p_delay)) nap(g_cfg.max_delay_us ? rnd() % g_cfg.max_delay_us + 1 : 1); }
// never interrupt the same thread over and over: progress has to be possible
static bool interrupted()
{
  if (t_eintr < 3 && chance(g_cfg.p_eintr)) { t_eintr++; errno = EINTR; return true; }
  t_eintr = 0;
  return false;
}
static size_t cut(size_t n)
{
  if (n > 1 && chance(g_cfg.p_one)) return 1;
  if (n > 1 && chance(g_cfg.p_short)) return 1 + rnd() % (n - 1);
  return n;
}
static void die() { if (g_die) g_die(); kill(getpid(), SIGKILL); for (;;) pause(); }

static ssize_t real_send(int fd, const void* b, size_t n, int flags) { REAL(send); return r_send(fd, b, n, flags); }
static ssize_t real_recv(int fd, void* b, size_t n, int flags) { REAL(recv); return r_recv(fd, b, n, flags); }

static ssize_t do_send(int fd, const void* b, size_t n, int flags)
{
  if (!unixsock(fd)) return real_send(fd, b, n, flags);
  before();
  if (interrupted()) return -1;
  size_t m = cut(n);
  if (g_cfg.stall_send >= 0)
  {
    long room = g_cfg.stall_send - g_sent;
    if (room <= 0) for (;;) pause();
    if (long(m) > room) m = room;
  }
  if (g_cfg.die_send >= 0)
  {
    long room = g_cfg.die_send - g_sent;
    if (room <= 0) die();
    if (long(m) > room) m = room;
  }
  ssize_t r = real_send(fd, b, m, flags);
  if (r > 0) g_sent += r;
  if (g_cfg.die_send >= 0 && g_sent >= g_cfg.die_send) die();
  int e = errno;
  if (g_cfg.after_send_us) nap(g_cfg.after_send_us);
  errno = e;
  return r;
}
static ssize_t do_recv(int fd, void* b, size_t n, int flags)
{
  if (!unixsock(fd)) return real_recv(fd, b, n, flags);
  if (flags & MSG_PEEK) return real_recv(fd, b, n, flags);
  before();
  if (interrupted()) return -1;
  size_t m = (flags & MSG_WAITALL) ? n : cut(n);
  if (g_cfg.die_recv >= 0)
  {
    long room = g_cfg.die_recv - g_recv;
    if (room <= 0) die();
    if (long(m) > room) m = room;
  }
  ssize_t r = real_recv(fd, b, m, flags);
  if (r > 0) g_recv += r;
  if (g_cfg.die_recv >= 0 && g_recv >= g_cfg.die_recv) die();
  int e = errno;
  if (g_cfg.after_recv_us) nap(g_cfg.after_recv_us);
  errno = e;
  return r;
}
extern "C" {
ssize_t send(int fd, const void* b, size_t n, int flags) { return do_send(fd, b, n, flags); }
ssize_t recv(int fd, void* b, size_t n, int flags) { return do_recv(fd, b, n, flags); }
ssize_t sendto(int fd, const void* b, size_t n, int flags, const struct sockaddr* a, socklen_t l)
{
  REAL(sendto);
  return a == nullptr ? do_send(fd, b, n, flags) : r_sendto(fd, b, n, flags, a, l);
}
ssize_t recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr* a, socklen_t* l)
{
  REAL(recvfrom);
  return a == nullptr ? do_recv(fd, b, n, flags) : r_recvfrom(fd, b, n, flags, a, l);
}
ssize_t read(int fd, void* b, size_t n)
{
  REAL(read);
  return unixsock(fd) ? do_recv(fd, b, n, 0) : r_read(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n)
{
  REAL(write);
  return unixsock(fd) ? do_send(fd, b, n, 0) : r_write(fd, b, n);
}
// vectored calls transfer (a piece of) their first non-empty element when they are cut
ssize_t sendmsg(int fd, const struct msghdr* m, int flags)
{
  REAL(sendmsg);
  if (!unixsock(fd) || m->msg_controllen) return r_sendmsg(fd, m, flags);
  size_t tot = 0;
  for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
  char* buf = static_cast<char*>(malloc(tot ? tot : 1)); size_t o = 0;
  for (size_t i = 0; i < m->msg_iovlen; i++) { memcpy(buf + o, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); o += m->msg_iov[i].iov_len; }
  ssize_t r = do_send(fd, buf, tot, flags);
  int e = errno; free(buf); errno = e;
  return r;
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
  REAL(writev);
  if (!unixsock(fd)) return r_writev(fd, v, c);
  struct msghdr m = {}; m.msg_iov = const_cast<struct iovec*>(v); m.msg_iovlen = c;
  return sendmsg(fd, &m, 0);
}
ssize_t recvmsg(int fd, struct msghdr* m, int flags)
{
  REAL(recvmsg);
  if (!unixsock(fd) || m->msg_controllen) return r_recvmsg(fd, m, flags);
  size_t tot = 0;
  for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
  char* buf = static_cast<char*>(malloc(tot ? tot : 1));
  ssize_t r = do_recv(fd, buf, tot, flags);
  int e = errno;
  size_t o = 0;
  for (size_t i = 0; r > 0 && i < m->msg_iovlen && o < size_t(r); i++)
  {
    size_t k = m->msg_iov[i].iov_len; if (k > size_t(r) - o) k = size_t(r) - o;
    memcpy(m->msg_iov[i].iov_base, buf + o, k); o += k;
  }
  free(buf); errno = e;
  return r;
}
ssize_t readv(int fd, const struct iovec* v, int c)
{
  REAL(readv);
  if (!unixsock(fd)) return r_readv(fd, v, c);
  struct msghdr m = {}; m.msg_iov = const_cast<struct iovec*>(v); m.msg_iovlen = c;
  return recvmsg(fd, &m, 0);
}
int close(int fd)
{
  REAL(close);
  const bool u = g_cfg.after_close_us && unixsock(fd);
  int r = r_close(fd);
  if (u) { int e = errno; nap(g_cfg.after_close_us); errno = e; }
  return r;
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t)
{
  REAL(select);
  if (g_on) { before(); if (interrupted()) return -1; }
  return r_select(n, r, w, e, t);
}
int poll(struct pollfd* f, nfds_t n, int t)
{
  REAL(poll);
  if (g_on) { before(); if (interrupted()) return -1; }
  return r_poll(f, n, t);
}
}
