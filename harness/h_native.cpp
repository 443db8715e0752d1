// Threads that record native trace events, start, end and reuse ids, and the sender that broadcasts them.
// stdin: ring n; start s; rec s kind n val gap_us; late s kind n val; end s; mk; attach; drop; hold; release; slow us; nap us; settle
#include <pthread.h>
#include <scalopus_interface/transport.h>
#include <scalopus_tracing/endpoint_native_trace_sender.h>
#include <scalopus_tracing/trace_configurator.h>
#include <scalopus_tracing/tracing.h>
#include <tracepoint_collector_native.h>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <iostream>
#include <map>
#include <sstream>
#include <thread>
#include <vector>
#include "cbor/stl.h"
#include "shlog.h"
using namespace scalopus;
static ShLog* L;
static const int64_t kValues[] = { 0, 1, -1, 23, 24, 255, 256, 65535, 65536, 2147483647, -2147483648LL, 4294967296LL, INT64_MAX, INT64_MIN, -1234567890123LL };
static const char* kKinds[] = { "?", "entry", "exit", "markg", "markp", "markt", "count" };
static uint64_t g_t0;
static uint64_t clock_ns() { return static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count()); }
static long us(uint64_t ns) { return ns < g_t0 ? -1 : static_cast<long>(std::min<uint64_t>((ns - g_t0) / 1000, 2000000000)); }

struct Burst { uint32_t base; int n, t, f; };     // events with numbers base.., of thread t, being its f-th and on
static std::mutex g_m;
static std::vector<Burst> g_bursts;
static uint32_t g_next = 1;
static std::map<unsigned long, int> g_tids;
static int tidOf(unsigned long x) { std::lock_guard<std::mutex> l(g_m); auto it = g_tids.find(x); if (it != g_tids.end()) return it->second; const int n = int(g_tids.size()) + 1; return g_tids[x] = n; }
static const uint32_t kMul = 2654435761u;
static uint32_t inverse() { uint32_t r = 1; for (int i = 0; i < 6; i++) r *= 2 - kMul * r; return r; }
static bool find(uint32_t id, Burst& b, int& off)
{
  const uint32_t n = id * inverse();
  std::lock_guard<std::mutex> l(g_m);
  size_t lo = 0, hi = g_bursts.size();
  while (lo < hi) { size_t mid = (lo + hi) / 2; if (g_bursts[mid].base + uint32_t(g_bursts[mid].n) <= n) lo = mid + 1; else hi = mid; }
  if (lo == g_bursts.size() || n < g_bursts[lo].base) return false;
  b = g_bursts[lo]; off = int(n - g_bursts[lo].base);
  return true;
}
static void point(const std::string& kind, uint32_t id, int64_t val)
{
  if (kind == "entry") scope_entry(id);
  else if (kind == "exit") scope_exit(id);
  else if (kind == "markg") mark_event(id, MarkLevel::GLOBAL);
  else if (kind == "markp") mark_event(id, MarkLevel::PROCESS);
  else if (kind == "markt") mark_event(id, MarkLevel::THREAD);
  else count_event(id, val);
}
static void burst(int t, int& f, const std::string& kind, int n, int val, int gap)
{
  uint32_t base; int b;
  { std::lock_guard<std::mutex> l(g_m); base = g_next; g_next += uint32_t(n); g_bursts.push_back({ base, n, t, f }); b = int(g_bursts.size()); }
  L->put("{\"e\":\"RecB\",\"t\":%d,\"f\":%d,\"n\":%d,\"k\":\"%s\",\"v\":%d,\"id\":%d,\"at\":%ld}", t, f, n, kind.c_str(), kind == "count" ? val : -1, tidOf(pthread_self()), us(clock_ns()));
  for (int i = 0; i < n; i++) { point(kind, (base + uint32_t(i)) * kMul, kValues[val]); if (gap > 0 && i % 4 == 3) nap_us(gap); }
  L->put("{\"e\":\"RecE\",\"t\":%d,\"f\":%d,\"at\":%ld}", t, f, us(clock_ns()));
  f += n;
}

static std::atomic<int> g_mark_seen{ 0 };
static int g_mark_t = 0;
class Catch : public Transport
{
public:
  std::mutex m; std::condition_variable cv;
  bool hold{ false }, inside{ false };
  std::atomic<int> slow{ 0 };
  PendingResponse request(const std::string&, const Data&) override { return nullptr; }
  std::size_t pendingRequests() const override { return 0; }
  void broadcast(const std::string& n, const Data& d) override
  {
    std::string runs;
    bool ok = n == "native_trace_receiver";
    long pid = 0;
    int mark = 0;
    cbor::reader r{ d };
    std::size_t m1, k, c;
    ok = ok && r.expectMap() && r.readLength(m1);
    for (std::size_t i = 0; ok && i < m1; i++)
    {
      std::string key;
      if (!cbor::from_cbor(key, r)) { ok = false; break; }
      if (key == "pid") { unsigned long p = 0; ok = bool(cbor::from_cbor(p, r)); pid = long(p); continue; }
      if (key != "events") { r.skip(); continue; }
      if (!r.expectMap() || !r.readLength(k)) { ok = false; break; }
      for (std::size_t j = 0; ok && j < k; j++)
      {
        unsigned long tid; if (!cbor::from_cbor(tid, r) || !r.expectArray() || !r.readLength(c)) { ok = false; break; }
        struct { int t{ 0 }, f{ 0 }, n{ 0 }, end{ 0 }, v{ 0 }, ty{ 0 }; uint64_t lo{ 0 }, hi{ 0 }; bool mono{ true }; } run;
        auto flush = [&] {
          if (run.n == 0) return;
          char b[300];
          snprintf(b, sizeof b, "%s{\"id\":%d,\"t\":%d,\"f\":%d,\"n\":%d,\"k\":\"%s\",\"v\":%d,\"lo\":%ld,\"hi\":%ld,\"mono\":%d}", runs.empty() ? "" : ",", tidOf(tid), run.t, run.f, run.n, kKinds[run.ty < 7 ? run.ty : 0],
                   run.v, us(run.lo), us(run.hi), run.mono ? 1 : 0);
          runs += b;
          run.n = 0;
        };
        for (std::size_t e = 0; e < c; e++)
        {
          std::size_t fields; std::uint64_t tm; std::uint32_t id; std::uint8_t ty; int v = -1;
          if (!r.expectArray() || !r.readLength(fields) || !cbor::from_cbor(tm, r) || !cbor::from_cbor(id, r) || !cbor::from_cbor(ty, r)) { ok = false; break; }
          if (fields > 3)
          {
            cbor::Bytes b; int64_t val;
            if (!cbor::from_cbor(b, r) || !cbor::from_cbor(val, b)) { ok = false; break; }
            v = -2;
            for (int q = 0; q < int(sizeof kValues / sizeof *kValues); q++) if (kValues[q] == val) v = q;
          }
          Burst b{ 0, 0, 0, 0 }; int off = 0;
          const bool known = find(id, b, off);
          const int t = known ? b.t : 0, f = known ? b.f + off : 0;
          if (known && t == g_mark_t) mark = std::max(mark, f);
          if (run.n > 0 && run.t == t && f == run.f + run.n && off != 0 && run.v == v && run.ty == ty) { run.n++; if (tm < run.hi) run.mono = false; run.hi = tm; }
          else { flush(); run.t = t; run.f = f; run.n = 1; run.v = v; run.ty = ty; run.lo = run.hi = tm; run.mono = true; }
        }
        flush();
      }
    }
    const std::string line = "{\"e\":\"Bc\",\"ok\":" + std::string(ok ? "true" : "false") + ",\"pid\":" + (pid == long(getpid()) ? "true" : "false") + ",\"runs\":[" + runs + "]}";
    if (line.size() > 3900) { L->lock(); if (L->len + line.size() + 2 < sizeof L->buf) { memcpy(L->buf + L->len, line.data(), line.size()); L->len += line.size(); L->buf[L->len++] = '\n'; } L->unlock(); }
    else L->put("%s", line.c_str());
    if (mark) g_mark_seen = std::max<int>(g_mark_seen, mark);
    if (slow > 0) nap_us(slow);
    std::unique_lock<std::mutex> l(m);
    inside = true; cv.notify_all();
    cv.wait(l, [&] { return !hold; });
    inside = false;
  }
};
struct Late { std::function<void()> f; ~Late() { if (f) f(); } };
struct Actor
{
  std::thread th; std::mutex m; std::condition_variable cv; std::deque<std::function<bool()>> q; int open{ 0 };
  int t{ 0 }, f{ 1 };
  std::function<void()> late;
  void put(std::function<bool()> x) { std::lock_guard<std::mutex> l(m); q.push_back(std::move(x)); open++; cv.notify_all(); }
  void run()
  {
    for (;;)
    {
      std::function<bool()> x;
      { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return !q.empty(); }); x = std::move(q.front()); q.pop_front(); }
      const bool go = x();
      { std::lock_guard<std::mutex> l(m); open--; }
      cv.notify_all();
      if (!go) break;
    }
    if (late) { static thread_local Late l; l.f = late; }
  }
  bool idle() { std::unique_lock<std::mutex> l(m); return cv.wait_for(l, std::chrono::seconds(20), [&] { return open == 0; }); }
};
static void die(const char* what) { L->put("{\"e\":\"Hang\",\"what\":\"%s\"}", what); L->dump(stdout); _exit(0); }
int main()
{
  L = ShLog::create();
  g_t0 = clock_ns() - 1000000;
  auto conf = TraceConfigurator::getInstance();
  auto collector = TracePointCollectorNative::getInstance();
  auto wire = std::make_shared<Catch>();
  std::shared_ptr<EndpointNativeTraceSender> sender;
  bool attached = false;
  conf->setProcessState(true);
  std::mutex ring_m; int ring = 10000, threads = 0;
  std::unique_ptr<Actor> slot[6];
  auto ended = [&](int s) {
    if (!slot[s]) return;
    if (!slot[s]->idle()) die("a thread does not return");
    slot[s]->th.join(); slot[s].reset();
  };
  bool leaving[6] = {};
  auto start = [&](int s) {
    if (slot[s] && leaving[s]) { ended(s); leaving[s] = false; }
    if (slot[s]) return;
    slot[s] = std::make_unique<Actor>();
    Actor* a = slot[s].get();
    a->t = ++threads;
    a->th = std::thread([a] { a->run(); });
    a->put([a, &conf, &ring_m, &ring] {
      conf->setThreadState(true);
      std::lock_guard<std::mutex> l(ring_m);
      L->put("{\"e\":\"Start\",\"t\":%d,\"cap\":%d}", a->t, ring - 1);
      burst(a->t, a->f, "entry", 1, 0, 0);       // the first one makes the buffer
      return true;
    });
  };
  auto mk = [&] { if (!sender) { sender = std::make_shared<EndpointNativeTraceSender>(); attached = false; } };
  auto attach = [&] { mk(); if (!attached) { std::static_pointer_cast<Endpoint>(sender)->setTransport(wire.get()); attached = true; } };
  auto release = [&] { std::lock_guard<std::mutex> l(wire->m); wire->hold = false; wire->cv.notify_all(); };
  auto mark = [&] {
    start(0);
    int f = 0;
    slot[0]->put([&] { burst(slot[0]->t, slot[0]->f, "markt", 1, 0, 0); f = slot[0]->f - 1; return true; });
    if (!slot[0]->idle()) die("a thread does not return");
    return wait_until([&] { return g_mark_seen >= f; }, 10);
  };
  start(0);      // the thread of the marks
  g_mark_t = slot[0]->t;
  slot[0]->idle();
  auto settle = [&] {
    release(); attach();
    for (int s = 1; s < 6; s++) if (slot[s]) { if (leaving[s]) { ended(s); leaving[s] = false; } else if (!slot[s]->idle()) die("a thread does not return"); }
    const int slow = wire->slow; wire->slow = 0;
    for (int i = 0; i < 3; i++) if (!mark()) die("an event is not broadcast");
    wire->slow = slow;
    L->put("{\"e\":\"Settled\"}");
  };
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    std::string op, kind; int s = 0, n = 0, v = 0, g = 0;
    is >> op;
    if (op == "ring") { is >> n; for (auto& a : slot) if (a) a->idle(); std::lock_guard<std::mutex> l(ring_m); ring = n; collector->setRingbufferSize(size_t(n)); }
    else if (op == "start") { is >> s; start(s); }
    else if (op == "rec") { is >> s >> kind >> n >> v >> g; if (slot[s] && !leaving[s]) { Actor* a = slot[s].get(); a->put([a, kind, n, v, g] { burst(a->t, a->f, kind, n, v, g); return true; }); } }
    else if (op == "late") { is >> s >> kind >> n >> v; if (slot[s] && !leaving[s]) { Actor* a = slot[s].get(); a->put([a, kind, n, v] { a->late = [a, kind, n, v] { burst(a->t, a->f, kind, n, v, 0); }; return true; }); } }
    else if (op == "end") { is >> s; if (slot[s] && !leaving[s]) { leaving[s] = true; slot[s]->put([] { return false; }); } }
    else if (op == "mk") mk();
    else if (op == "attach") attach();
    else if (op == "drop") { release(); sender.reset(); attached = false; }
    else if (op == "hold")
    {
      attach();
      { std::lock_guard<std::mutex> l(wire->m); wire->hold = true; }
      start(0);
      slot[0]->put([&] { burst(slot[0]->t, slot[0]->f, "markt", 1, 0, 0); return true; });
      std::unique_lock<std::mutex> l(wire->m);
      if (!wire->cv.wait_for(l, std::chrono::seconds(10), [&] { return wire->inside; })) { l.unlock(); die("an event is not broadcast"); }
    }
    else if (op == "release") release();
    else if (op == "slow") { is >> n; wire->slow = n; }
    else if (op == "nap") { is >> n; nap_us(n); }
    else if (op == "settle") settle();
  }
  settle();
  L->put("{\"e\":\"Done\"}");
  L->dump(stdout);
  _exit(0);
}
