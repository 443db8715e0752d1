// An event log shared by a process and its children, totally ordered by a lock that survives the death of its owner.
#pragma once
#include <pthread.h>
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <string>

struct ShLog
{
  pthread_mutex_t m;
  size_t len;
  std::atomic<long> counter[64];
  char buf[8 << 20];

  static ShLog* create()
  {
    void* p = mmap(nullptr, sizeof(ShLog), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ShLog* s = static_cast<ShLog*>(p);
    pthread_mutexattr_t a;
    pthread_mutexattr_init(&a);
    pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
    pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST);
    pthread_mutex_init(&s->m, &a);
    return s;
  }
  void lock() { if (pthread_mutex_lock(&m) == EOWNERDEAD) pthread_mutex_consistent(&m); }
  void unlock() { pthread_mutex_unlock(&m); }
  void put(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
  {
    char line[4096];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(line, sizeof line - 1, fmt, ap);
    va_end(ap);
    if (n > int(sizeof line) - 2) n = sizeof line - 2;
    line[n] = '\n';
    lock();
    if (len + n + 1 < sizeof buf) { memcpy(buf + len, line, n + 1); len += n + 1; }
    unlock();
  }
  void dump(FILE* f)
  {
    lock();
    fwrite(buf, 1, len, f);
    unlock();
    fflush(f);
  }
};

// Length and a hash of all bytes: equal digests stand for equal data.
inline std::string digest(const void* p, size_t n)
{
  uint64_t h = 1469598103934665603ull;
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  h ^= h >> 29;
  char b[64];
  snprintf(b, sizeof b, "%zu:%08llx", n, static_cast<unsigned long long>(h & 0xffffffffull));
  return b;
}
template <typename D> std::string digest(const D& d) { return digest(d.empty() ? nullptr : d.data(), d.size()); }

inline double now()
{
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
inline void nap_us(long us) { struct timespec t = { us / 1000000, (us % 1000000) * 1000 }; nanosleep(&t, nullptr); }
template <typename F> bool wait_until(F f, double seconds)
{
  const double end = now() + seconds;
  for (int i = 0;; i++)
  {
    if (f()) return true;
    if (now() > end) return false;
    nap_us(i < 20 ? 100 : 1000);
  }
}
