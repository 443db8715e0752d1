// A stand-in for std::atomic on a simulated machine with the release/acquire memory model: every access is a point at which
// the schedule branches, a load branches over all values it may return, and plain accesses that are not ordered are noticed.
//
// Include all standard headers before this one, then the code under test; it sees std::atomic as std::vatomic.
#pragma once
#include <ucontext.h>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <unordered_set>
#include <vector>

namespace vm
{
constexpr int NT = 3, NA = 12;   // threads (0 sets things up and looks at the outcome), atomic variables
struct View
{
  int seen[NA] = {};
  int clk[NT] = {};
  void join(const View& o)
  {
    for (int i = 0; i < NA; i++) seen[i] = std::max(seen[i], o.seen[i]);
    for (int i = 0; i < NT; i++) clk[i] = std::max(clk[i], o.clk[i]);
  }
};
struct Message { uint64_t v; View view; };
struct Machine
{
  std::vector<std::vector<Message>> mem;
  View view[NT], acq[NT], rel[NT];
  int cur{ 0 };
  bool weak{ false }, race{ false }, parallel{ false };
  std::vector<std::pair<int, int>> path;   // choice, number of options
  size_t pos{ 0 };
  std::string obs[NT], log;                // what the threads have observed, and the order of the operations
  std::unordered_set<std::string> visited;
  bool abandoned{ false };
  ucontext_t main, fib[NT];
  std::vector<char> stack[NT];
  bool done[NT] = {};
  std::function<void()> body[NT], access;   // access: called right before each access

  int choose(int n)
  {
    if (n <= 1) return 0;
    if (pos == path.size()) path.emplace_back(0, n);
    if (path[pos].second != n) { fprintf(stderr, "not deterministic\n"); exit(3); }
    return path[pos++].first;
  }
  void point()
  {
    if (parallel && cur != 0) { obs[cur] += '.'; swapcontext(&fib[cur], &main); }
    if (access) access();
  }
  void saw(uint64_t v) { obs[cur] += std::to_string(v) + ","; }
  std::string state() const
  {
    std::string s = obs[1] + "|" + obs[2] + "|" + (weak ? "" : log) + "|";
    auto put = [&](const View& v) { s.append(reinterpret_cast<const char*>(&v), sizeof v); };
    for (auto& m : mem)
    {
      s += ";";
      if (weak) for (auto& x : m) { s += std::to_string(x.v) + " "; put(x.view); }
      else s += std::to_string(m.back().v);
    }
    for (int t = 1; t < NT; t++) { if (weak) { put(view[t]); put(acq[t]); put(rel[t]); } s += done[t] ? "D" : "r"; }
    return s;
  }
  static Machine*& get() { static Machine* m; return m; }
  static void entry(int t) { Machine* m = get(); m->body[t](); m->done[t] = true; swapcontext(&m->fib[t], &m->main); }

  // Runs the two bodies along the current path; false if this continuation was seen before.
  bool execute()
  {
    for (int t = 1; t < NT; t++)
    {
      stack[t].resize(256 * 1024);
      getcontext(&fib[t]);
      fib[t].uc_stack.ss_sp = stack[t].data();
      fib[t].uc_stack.ss_size = stack[t].size();
      fib[t].uc_link = nullptr;
      makecontext(&fib[t], reinterpret_cast<void (*)()>(entry), 1, t);
      view[t] = view[0];
      done[t] = false;
    }
    parallel = true;
    while (!done[1] || !done[2])
    {
      int t;
      if (done[1]) t = 2;
      else if (done[2]) t = 1;
      else
      {
        if (pos >= path.size() && !visited.insert(state()).second) { parallel = false; cur = 0; return false; }
        t = 1 + choose(2);
      }
      cur = t;
      swapcontext(&main, &fib[t]);
      cur = 0;
    }
    parallel = false;
    for (int t = 1; t < NT; t++) view[0].join(view[t]);
    return true;
  }
  // Next path in depth first order; false if there is none.
  bool next()
  {
    while (!path.empty() && path.back().first + 1 >= path.back().second) path.pop_back();
    if (path.empty()) return false;
    path.back().first++;
    return true;
  }
  void reset()
  {
    mem.clear(); pos = 0; race = false; cur = 0; log.clear();
    for (int t = 0; t < NT; t++) { view[t] = acq[t] = rel[t] = View(); obs[t].clear(); view[t].clk[t] = 1; }
  }
};
inline Machine& M() { return *Machine::get(); }

inline bool isAcq(std::memory_order o) { return o == std::memory_order_acquire || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst || o == std::memory_order_consume; }
inline bool isRel(std::memory_order o) { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }
inline void fence(std::memory_order o)
{
  Machine& m = M();
  m.point();
  if (isAcq(o)) m.view[m.cur].join(m.acq[m.cur]);
  if (isRel(o)) m.rel[m.cur] = m.view[m.cur];
}

template <class T>
class Var
{
  int id;
  uint64_t enc(T v) const { uint64_t r = 0; static_assert(sizeof(T) <= 8, ""); memcpy(&r, &v, sizeof v); return r; }
  T dec(uint64_t r) const { T v; memcpy(&v, &r, sizeof v); return v; }
  uint64_t read(std::memory_order o, bool latest)
  {
    Machine& m = M();
    auto& h = m.mem[id];
    int i = int(h.size()) - 1;
    const int low = m.view[m.cur].seen[id];
    if (m.weak && !latest && m.parallel && o != std::memory_order_seq_cst) i -= m.choose(i - low + 1);
    m.view[m.cur].seen[id] = std::max(low, i);
    if (isAcq(o)) m.view[m.cur].join(h[i].view);
    else m.acq[m.cur].join(h[i].view);
    m.view[m.cur].clk[m.cur]++;
    m.saw(h[i].v);
    return h[i].v;
  }
  void write(uint64_t v, std::memory_order o, const View* chain = nullptr)
  {
    Machine& m = M();
    auto& h = m.mem[id];
    View& me = m.view[m.cur];
    me.clk[m.cur]++;
    me.seen[id] = int(h.size());
    View out = isRel(o) ? me : m.rel[m.cur];
    out.seen[id] = int(h.size());
    if (chain) out.join(*chain);
    h.push_back({ v, out });
  }
  template <class F> T rmw(F f, std::memory_order o)
  {
    M().point();
    const T old = dec(read(o, true));
    const View chain = M().mem[id].back().view;
    write(enc(f(old)), o, &chain);
    return old;
  }
public:
  using value_type = T;
  Var() : Var(T()) {}
  Var(T v) { Machine& m = M(); id = int(m.mem.size()); if (id >= NA) { fprintf(stderr, "too many atomics\n"); exit(3); } m.mem.push_back({ { enc(v), m.view[m.cur] } }); }
  Var(const Var&) = delete;
  Var& operator=(const Var&) = delete;
  T load(std::memory_order o = std::memory_order_seq_cst) const { M().point(); return dec(const_cast<Var*>(this)->read(o, false)); }
  void store(T v, std::memory_order o = std::memory_order_seq_cst) { M().point(); write(enc(v), o); }
  operator T() const { return load(); }
  T operator=(T v) { store(v); return v; }
  T exchange(T v, std::memory_order o = std::memory_order_seq_cst) { return rmw([&](T) { return v; }, o); }
  T fetch_add(T d, std::memory_order o = std::memory_order_seq_cst) { return rmw([&](T x) { return T(x + d); }, o); }
  T fetch_sub(T d, std::memory_order o = std::memory_order_seq_cst) { return rmw([&](T x) { return T(x - d); }, o); }
  T operator++() { return fetch_add(1) + 1; }
  T operator++(int) { return fetch_add(1); }
  T operator--() { return fetch_sub(1) - 1; }
  T operator--(int) { return fetch_sub(1); }
  T operator+=(T d) { return fetch_add(d) + d; }
  T operator-=(T d) { return fetch_sub(d) - d; }
  bool compare_exchange_strong(T& e, T v, std::memory_order s = std::memory_order_seq_cst, std::memory_order f = std::memory_order_seq_cst)
  {
    M().point();
    const T old = dec(read(s, true));
    if (enc(old) != enc(e)) { e = old; return false; }
    const View chain = M().mem[id].back().view;
    write(enc(v), s, &chain);
    return true;
  }
  bool compare_exchange_weak(T& e, T v, std::memory_order s = std::memory_order_seq_cst, std::memory_order f = std::memory_order_seq_cst) { return compare_exchange_strong(e, v, s, f); }
  bool is_lock_free() const { return true; }
};

// Plain memory whose accesses are checked.
struct Cell
{
  int wt{ 0 }, wc{ 0 }, rc[NT] = {};
  void write()
  {
    Machine& m = M();
    View& me = m.view[m.cur];
    if (wt != m.cur && wc > me.clk[wt]) m.race = true;
    for (int t = 0; t < NT; t++) if (t != m.cur && rc[t] > me.clk[t]) m.race = true;
    wt = m.cur; wc = ++me.clk[m.cur];
  }
  void read()
  {
    Machine& m = M();
    View& me = m.view[m.cur];
    if (wt != m.cur && wc > me.clk[wt]) m.race = true;
    rc[m.cur] = ++me.clk[m.cur];
  }
};
}  // namespace vm
namespace std
{
template <class T> using vatomic = vm::Var<T>;
using vatomic_size_t = vm::Var<size_t>;
inline void vatomic_thread_fence(memory_order o) { vm::fence(o); }
}
