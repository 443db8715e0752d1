// Trace points of a back-end (native or LTTng) under configuration changes by the threads themselves, by scopes and remotely.
#include <dlfcn.h>
#include <pthread.h>
#include <scalopus_interface/transport.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/trace_configurator.h>
#include <scalopus_tracing/tracing.h>
#include <condition_variable>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
#include "shlog.h"
#ifdef NATIVE
#include <scalopus_tracing/endpoint_native_trace_sender.h>
#include "cbor/stl.h"
#endif
using namespace scalopus;
static ShLog* L;

// ------------------------------------------------------------------------------------------- what the back-end recorded
struct Rec { std::string kind; unsigned long tid; long val; };
static std::mutex g_rm;
static std::map<unsigned int, std::vector<Rec>> g_rec;
static void recorded(unsigned int id, const std::string& kind, unsigned long tid, long val)
{
  std::lock_guard<std::mutex> l(g_rm);
  g_rec[id].push_back({ kind, tid, val });
}
#ifdef NATIVE
static std::atomic<long> g_msgs{ 0 };
class Catch : public Transport
{
public:
  PendingResponse request(const std::string&, const Data&) override { return nullptr; }
  std::size_t pendingRequests() const override { return 0; }
  void broadcast(const std::string& n, const Data& d) override
  {
    if (n != "native_trace_receiver") return;
    cbor::reader r{ d };
    std::size_t m, k, c;
    auto fail = [] { recorded(0, "undecodable", 0, 0); };
    if (!r.expectMap() || !r.readLength(m)) return fail();
    for (std::size_t i = 0; i < m; i++)
    {
      std::string key;
      if (!cbor::from_cbor(key, r)) return fail();
      if (key != "events") { r.skip(); continue; }
      if (!r.expectMap() || !r.readLength(k)) return fail();
      for (std::size_t j = 0; j < k; j++)
      {
        unsigned long tid; if (!cbor::from_cbor(tid, r) || !r.expectArray() || !r.readLength(c)) return fail();
        for (std::size_t e = 0; e < c; e++)
        {
          std::size_t f; std::uint64_t tm; std::uint32_t id; std::uint8_t ty; long val = 0;
          if (!r.expectArray() || !r.readLength(f) || !cbor::from_cbor(tm, r) || !cbor::from_cbor(id, r) || !cbor::from_cbor(ty, r)) return fail();
          if (f > 3) { cbor::Bytes b; if (!cbor::from_cbor(b, r) || !cbor::from_cbor(val, b)) return fail(); }
          static const char* names[] = { "?", "entry", "exit", "markg", "markp", "markt", "count" };
          recorded(id, ty < 7 ? names[ty] : "?", tid, val);
        }
      }
    }
    g_msgs++;
  }
};
#else
#define PROBE(n, k) static void n(void*, unsigned int id) { recorded(id, k, (unsigned long)pthread_self(), 0); }
PROBE(p1, "entry") PROBE(p2, "exit") PROBE(p3, "markg") PROBE(p4, "markp") PROBE(p5, "markt")
static void p6(void*, unsigned int id, int64_t v) { recorded(id, "count", (unsigned long)pthread_self(), v); }
static bool probes()
{
  void* h = dlopen("liblttng-ust-tracepoint.so.1", RTLD_NOW | RTLD_GLOBAL);
  if (!h) return false;
  using Fn = void (*)();
  auto reg = reinterpret_cast<int (*)(const char*, const char*, Fn, void*, const char*)>(dlsym(h, "lttng_ust_tp_probe_register_queue_release"));
  if (!reg) return false;
  struct { const char* n; Fn f; const char* s; } all[] = { { "scope_entry", Fn(p1), "unsigned int, id_" }, { "scope_exit", Fn(p2), "unsigned int, id_" },
    { "mark_event_global", Fn(p3), "unsigned int, id_" }, { "mark_event_process", Fn(p4), "unsigned int, id_" }, { "mark_event_thread", Fn(p5), "unsigned int, id_" },
    { "count_event", Fn(p6), "unsigned int, id_, std::int64_t, value_" } };
  for (auto& a : all) if (reg("scalopus_scope_id", a.n, a.f, nullptr, a.s) != 0) return false;
  return true;
}
#endif

// ------------------------------------------------------------------------------------------------------------- threads
static std::mutex g_slotm;
static std::map<unsigned long, int> g_slot;
static int slotOf(unsigned long tid, bool make)
{
  std::lock_guard<std::mutex> l(g_slotm);
  auto it = g_slot.find(tid);
  if (it != g_slot.end()) return it->second;
  if (!make) return 98;
  const int n = int(g_slot.size()) + 1;
  return g_slot[tid] = n;
}
static std::atomic<unsigned int> g_id{ 1000 };
struct Tp { unsigned int id; std::string kind; unsigned long tid; long val; };
static std::map<unsigned int, Tp> g_tp;
static std::mutex g_tpm;

static void point(const std::string& kind, unsigned int id, long val)
{
  if (kind == "entry") scope_entry(id);
  else if (kind == "exit") scope_exit(id);
  else if (kind == "markg") mark_event(id, MarkLevel::GLOBAL);
  else if (kind == "markp") mark_event(id, MarkLevel::PROCESS);
  else if (kind == "markt") mark_event(id, MarkLevel::THREAD);
  else count_event(id, val);
}
struct Unwind {};
class Worker
{
public:
  std::mutex m; std::condition_variable cv;
  std::deque<std::string> q; int open{ 0 };
  unsigned long tid{ 0 }; int slot{ 0 };
  std::thread th;
  void post(const std::string& s) { std::lock_guard<std::mutex> l(m); q.push_back(s); open++; cv.notify_all(); }
  bool idle() { std::lock_guard<std::mutex> l(m); return open == 0; }
  std::string next() { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return !q.empty(); }); auto s = q.front(); q.pop_front(); return s; }
  void done() { std::lock_guard<std::mutex> l(m); open--; cv.notify_all(); }
  virtual ~Worker() {}
};
class TraceThread : public Worker
{
public:
  std::string ended;
  // Runs commands until the block is left.
  void block()
  {
    for (;;)
    {
      std::string line = next();
      std::istringstream is(line);
      std::string op; is >> op;
      if (op == "pop" || op == "exit") { ended = op; L->put("{\"e\":\"%s\",\"t\":%d}", op == "pop" ? "PopB" : "ExitB", slot); return; }
      if (op == "throw") { L->put("{\"e\":\"PopB\",\"t\":%d}", slot); throw Unwind(); }
      if (op == "tp")
      {
        std::string kind; is >> kind;
        const unsigned int id = g_id++;
        const long val = (id % 2 ? 1 : -1) * long(id) * 7919;
        { std::lock_guard<std::mutex> l(g_tpm); g_tp[id] = { id, kind, tid, kind == "count" ? val : 0 }; }
        L->put("{\"e\":\"TpB\",\"t\":%d,\"id\":%u}", slot, id);
        point(kind, id, val);
        L->put("{\"e\":\"TpE\",\"t\":%d,\"id\":%u,\"rec\":%%%u%%}", slot, id, id);
      }
      else if (op == "set")
      {
        int p, v; is >> p >> v;
        L->put("{\"e\":\"SetB\",\"t\":%d,\"p\":%s,\"v\":%s}", slot, p ? "true" : "false", v ? "true" : "false");
        auto c = TraceConfigurator::getInstance();
        const bool old = p ? c->setProcessState(v) : c->setThreadState(v);
        L->put("{\"e\":\"SetE\",\"t\":%d,\"old\":%s}", slot, old ? "true" : "false");
      }
      else if (op == "get")
      {
        int p; is >> p;
        L->put("{\"e\":\"GetB\",\"t\":%d,\"p\":%s}", slot, p ? "true" : "false");
        auto c = TraceConfigurator::getInstance();
        const bool v = p ? c->getProcessState() : c->getThreadState();
        L->put("{\"e\":\"GetE\",\"t\":%d,\"v\":%s}", slot, v ? "true" : "false");
      }
      else if (op == "push")
      {
        int p, v; is >> p >> v;
        L->put("{\"e\":\"PushB\",\"t\":%d,\"p\":%s,\"v\":%s}", slot, p ? "true" : "false", v ? "true" : "false");
        try
        {
          if (p) { TRACING_CONFIG_PROCESS_STATE_RAII(bool(v)); L->put("{\"e\":\"PushE\",\"t\":%d}", slot); done(); block(); }
          else { TRACING_CONFIG_THREAD_STATE_RAII(bool(v)); L->put("{\"e\":\"PushE\",\"t\":%d}", slot); done(); block(); }
        }
        catch (const Unwind&) {}
        L->put("{\"e\":\"PopE\",\"t\":%d}", slot);
      }
      done();
    }
  }
  void run() { block(); }
};
class Wire : public Transport   // hands requests to the server's endpoint
{
public:
  EndpointTraceConfigurator server;
  PendingResponse request(const std::string& n, const Data& d) override
  {
    std::promise<Data> p;
    auto f = std::make_shared<std::future<Data>>(p.get_future());
    Data r;
    try { if (n == server.getName() && server.handle(*this, d, r)) p.set_value(r); else p.set_exception(std::make_exception_ptr(communication_error("no answer"))); }
    catch (...) { p.set_exception(std::current_exception()); }
    return f;
  }
  std::size_t pendingRequests() const override { return 0; }
};
class RemoteThread : public Worker
{
public:
  int r;
  void run()
  {
    auto wire = std::make_shared<Wire>();
    auto client = EndpointTraceConfigurator::factory(wire);
    for (;;)
    {
      std::string line = next();
      std::istringstream is(line);
      std::string op; is >> op;
      if (op == "quit") return;
      EndpointTraceConfigurator::TraceConfiguration c, a;
      std::string list;
      bool ok = true;
      if (op == "rset")
      {
        int sp, v, n; is >> sp >> v >> n;
        c.set_process_state = sp; c.process_state = v;
        for (int i = 0; i < n; i++)
        {
          unsigned long tid; int x; is >> tid >> x;
          if (c.thread_state.count(tid)) continue;   // two of our threads had this id
          c.thread_state[tid] = x;
          list += (list.empty() ? "" : ",") + std::string("{\"t\":") + std::to_string(slotOf(tid, false)) + ",\"v\":" + (x ? "true" : "false") + "}";
        }
        L->put("{\"e\":\"RB\",\"r\":%d,\"sp\":%s,\"p\":%s,\"set\":[%s]}", 100 + r, sp ? "true" : "false", v ? "true" : "false", list.c_str());
        try { a = client->setTraceState(c); ok = a.cmd_success; } catch (const std::exception&) { ok = false; }
      }
      else
      {
        L->put("{\"e\":\"RB\",\"r\":%d,\"sp\":false,\"p\":false,\"set\":[]}", 100 + r);
        try { a = client->getTraceState(); ok = a.cmd_success; } catch (const std::exception&) { ok = false; }
      }
      std::string map;
      for (auto& kv : a.thread_state) map += (map.empty() ? "" : ",") + std::string("{\"t\":") + std::to_string(slotOf(kv.first, false)) + ",\"v\":" + (kv.second ? "true" : "false") + "}";
      L->put("{\"e\":\"RE\",\"r\":%d,\"ok\":%s,\"p\":%s,\"map\":[%s]}", 100 + r, ok ? "true" : "false", a.process_state ? "true" : "false", map.c_str());
      done();
    }
  }
};

static std::map<int, std::shared_ptr<TraceThread>> g_t;
static std::map<int, unsigned long> g_last;
static std::map<int, std::shared_ptr<RemoteThread>> g_r;
static std::set<int> g_leaving;
static void join(int k) { g_t[k]->th.join(); L->put("{\"e\":\"ExitE\",\"t\":%d}", g_t[k]->slot); g_t.erase(k); g_leaving.erase(k); }
static void start(int k)
{
  auto w = std::make_shared<TraceThread>();
  std::atomic<bool> up{ false };
  w->th = std::thread([&up, w] { w->tid = (unsigned long)pthread_self(); w->slot = slotOf(w->tid, true); L->put("{\"e\":\"Start\",\"t\":%d}", w->slot); up = true; w->run(); });
  while (!up) std::this_thread::yield();
  g_t[k] = w; g_last[k] = w->tid;
}
static void settle()
{
  for (auto& kv : g_t) if (!g_leaving.count(kv.first)) while (!kv.second->idle()) nap_us(20);
  for (auto& kv : g_r) while (!kv.second->idle()) nap_us(20);
  for (auto k : std::set<int>(g_leaving)) join(k);
}

int main()
{
  L = ShLog::create();
  alarm(60);
#ifdef NATIVE
  auto wire = std::make_shared<Catch>();
  auto sender = std::make_shared<EndpointNativeTraceSender>();
  wire->addEndpoint(sender);
#else
  if (!probes()) { fprintf(stderr, "no lttng"); return 3; }
#endif
  for (int r : { 1, 2 }) { auto w = std::make_shared<RemoteThread>(); w->r = r; w->th = std::thread([w] { w->run(); }); g_r[r] = w; }
  bool par = false;
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    std::string op; is >> op;
    if (op == "par") { par = true; continue; }
    if (op == "seq") { settle(); par = false; continue; }
    if (op == "go") { settle(); continue; }
    if (op == "rget" || op == "rset")
    {
      int r; is >> r;
      std::string cmd = op;
      if (op == "rset")
      {
        int sp, v, n; is >> sp >> v >> n;
        cmd += " " + std::to_string(sp) + " " + std::to_string(v);
        std::string l; int cnt = 0;
        for (int i = 0; i < n; i++)
        {
          int k, x; is >> k >> x;
          if (k != 9 && !g_last.count(k)) continue;
          l += " " + std::to_string(k == 9 ? 12345ul : g_last[k]) + " " + std::to_string(x); cnt++;
        }
        cmd += " " + std::to_string(cnt) + l;
      }
      g_r[r]->post(cmd);
    }
    else
    {
      int k; is >> k;
      std::string rest; std::getline(is, rest);
      if (op == "start") { if (g_t.count(k)) join(k); start(k); }
      else { g_t[k]->post(op + rest); if (op == "exit") g_leaving.insert(k); }
    }
    if (!par) settle();
  }
  settle();
  alarm(60);
  for (auto& kv : g_r) { kv.second->post("quit"); kv.second->th.join(); }
#ifdef NATIVE
  // Two more events, one after the other was sent: then everything before has been collected.
  std::thread([&] {
    TraceConfigurator::getInstance()->setProcessState(true);
    for (unsigned int id : { 1u, 2u })
    {
      scope_entry(id);
      if (!wait_until([&] { std::lock_guard<std::mutex> l(g_rm); return g_rec.count(id) > 0; }, 15)) break;
    }
  }).join();
  for (int i = 0; i < 1; i++) nap_us(1000);
#endif
  // fill in which of them were recorded
  L->lock();
  std::string s(L->buf, L->len), out;
  L->unlock();
  std::lock_guard<std::mutex> l(g_rm);
  for (size_t i = 0; i < s.size(); i++)
  {
    if (s[i] != '%') { out += s[i]; continue; }
    const size_t e = s.find('%', i + 1);
    const unsigned int id = unsigned(std::stoul(s.substr(i + 1, e - i - 1)));
    int n = 0;
    for (auto& r : g_rec[id]) n += (r.kind == g_tp[id].kind && r.tid == g_tp[id].tid && r.val == g_tp[id].val) ? 1 : 10;
    out += std::to_string(n);
    i = e;
  }
  fputs(out.c_str(), stdout);
  if (g_rec.count(0)) printf("{\"e\":\"Undecodable\"}\n");
  fflush(stdout);
#ifdef NATIVE
  sender.reset(); wire.reset();
#endif
  printf("{\"e\":\"Done\"}\n");
  fflush(stdout);
  _exit(0);
}
