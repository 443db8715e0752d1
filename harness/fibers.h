// Deterministic exploration of the interleavings of real code: threads are fibers of one thread, and the points at which
// they can be preempted are lock operations, memory allocation and whatever the harness adds. Locks are modelled here.
// Stateless depth-first search over the choices, with a bound on the number of preemptions.
#pragma once
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <vector>
#include <cxxabi.h>

namespace fib
{
struct Lock { int writer{ -1 }; int depth{ 0 }; std::vector<int> readers; };
struct Fiber { ucontext_t c; char* stack{ nullptr }; std::function<void()> f; bool done{ false }; bool blocked{ false }; char eh[16]; };
struct Sched
{
  std::vector<std::unique_ptr<Fiber>> fibers;
  ucontext_t main;
  int cur{ -1 };
  bool inside{ false };               // the scheduler's own work is not preempted
  bool hang{ false };
  int bound{ 2 }, preempted{ 0 };
  std::map<void*, Lock> locks;
  struct Choice { int taken, n; };
  std::vector<Choice> path;
  size_t pos{ 0 };
  static const size_t STACK = 256 * 1024;
  static std::vector<char*>& pool() { static std::vector<char*> p; return p; }

  int choose(int n)
  {
    if (n <= 1) return 0;
    if (pos < path.size()) { if (path[pos].n != n) { path[pos].n = n; path.resize(pos + 1); if (path[pos].taken >= n) path[pos].taken = 0; } return path[pos++].taken; }
    path.push_back({ 0, n });
    pos++;
    return 0;
  }
  // The next path to take, or none.
  bool advance()
  {
    while (!path.empty() && path.back().taken + 1 >= path.back().n) path.pop_back();
    if (path.empty()) return false;
    path.back().taken++;
    return true;
  }
  void to(int next)
  {
    const int from = cur;
    if (next == from) return;
    ucontext_t* a = from < 0 ? &main : &fibers[from]->c;
    if (from >= 0) memcpy(fibers[from]->eh, abi::__cxa_get_globals(), 16);
    cur = next;
    if (next >= 0) memcpy(abi::__cxa_get_globals(), fibers[next]->eh, 16);
    inside = false;
    swapcontext(a, next < 0 ? &main : &fibers[next]->c);
  }
  // A point at which others may go on instead.
  void point(bool forced = false)
  {
    if (cur < 0 || inside || hang) return;
    inside = true;
    std::vector<int> en;
    const bool self = !forced && !fibers[cur]->blocked && !fibers[cur]->done;
    if (self) en.push_back(cur);
    if (!self || preempted < bound)
      for (int i = 0; i < int(fibers.size()); i++) if (i != cur && !fibers[i]->done && !fibers[i]->blocked) en.push_back(i);
    if (en.empty())
    {
      bool all = true;
      for (auto& f : fibers) all &= f->done;
      if (!all) hang = true;
      to(-1);
      return;
    }
    const int k = choose(int(en.size()));
    if (self && k > 0) preempted++;
    const int next = en[k];
    en = std::vector<int>();
    to(next);
    inside = false;
  }
  void wake() { for (auto& f : fibers) f->blocked = false; }
  void block() { fibers[cur]->blocked = true; point(true); }
  static void entry();
  static Sched*& get() { static Sched* s = nullptr; return s; }
  void run(std::vector<std::function<void()>> fs)
  {
    fibers.clear(); locks.clear(); pos = 0; preempted = 0; hang = false; cur = -1; inside = true;
    for (auto& f : fs)
    {
      auto x = std::make_unique<Fiber>();
      x->f = f;
      if (pool().empty()) pool().push_back(static_cast<char*>(malloc(STACK)));
      x->stack = pool().back(); pool().pop_back();
      memset(x->eh, 0, sizeof x->eh);
      getcontext(&x->c);
      x->c.uc_stack.ss_sp = x->stack; x->c.uc_stack.ss_size = STACK; x->c.uc_link = nullptr;
      makecontext(&x->c, reinterpret_cast<void (*)()>(&Sched::entry), 0);
      fibers.push_back(std::move(x));
    }
    const int first = choose(int(fibers.size()));
    to(first);
    inside = true;
    for (auto& f : fibers) pool().push_back(f->stack);
  }
};
inline void Sched::entry()
{
  Sched* s = get();
  s->inside = false;
  s->fibers[s->cur]->f();
  s->fibers[s->cur]->done = true;
  s->point(true);
  abort();
}
inline void point() { Sched* s = Sched::get(); if (s) s->point(); }
inline bool on() { Sched* s = Sched::get(); return s && s->cur >= 0 && !s->inside; }

// ----------------------------------------------------------------------------------------------------------- the locks
inline int lockW(void* m, bool rec, bool tr)
{
  Sched* s = Sched::get();
  s->point();
  for (;;)
  {
    s->inside = true; Lock& l = s->locks[m]; s->inside = false;
    if (rec && l.writer == s->cur) { l.depth++; return 0; }
    if (l.writer < 0 && l.readers.empty()) { l.writer = s->cur; l.depth = 1; return 0; }
    if (tr) return EBUSY;
    s->block();
  }
}
inline int lockR(void* m, bool tr)
{
  Sched* s = Sched::get();
  s->point();
  for (;;)
  {
    s->inside = true; Lock& l = s->locks[m]; s->inside = false;
    if (l.writer < 0) { s->inside = true; l.readers.push_back(s->cur); s->inside = false; return 0; }
    if (tr) return EBUSY;
    s->block();
  }
}
inline int unlock(void* m)
{
  Sched* s = Sched::get();
  s->inside = true;
  Lock& l = s->locks[m];
  if (l.writer == s->cur) { if (--l.depth == 0) l.writer = -1; }
  else for (size_t i = 0; i < l.readers.size(); i++) if (l.readers[i] == s->cur) { l.readers.erase(l.readers.begin() + i); break; }
  s->wake();
  s->inside = false;
  s->point();
  return 0;
}
}  // namespace fib

#define FIB_REAL(name) \
  static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name));
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { if (fib::on()) return fib::lockW(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, false); FIB_REAL(pthread_mutex_lock) return real ? real(m) : 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (fib::on()) return fib::lockW(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true); FIB_REAL(pthread_mutex_trylock) return real ? real(m) : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (fib::on()) return fib::unlock(m); FIB_REAL(pthread_mutex_unlock) return real ? real(m) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (fib::on()) return fib::lockW(m, false, false); FIB_REAL(pthread_rwlock_wrlock) return real(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (fib::on()) return fib::lockW(m, false, true); FIB_REAL(pthread_rwlock_trywrlock) return real(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (fib::on()) return fib::lockR(m, false); FIB_REAL(pthread_rwlock_rdlock) return real(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (fib::on()) return fib::lockR(m, true); FIB_REAL(pthread_rwlock_tryrdlock) return real(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (fib::on()) return fib::unlock(m); FIB_REAL(pthread_rwlock_unlock) return real(m); }
}
void* operator new(std::size_t n) { fib::point(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); fib::point(); }
void operator delete(void* p, std::size_t) noexcept { free(p); fib::point(); }
