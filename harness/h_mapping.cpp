// Processes execute generated sources with trace macros; a client resolves the recorded ids.
#include <pthread.h>
#include <dlfcn.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/internal/count_tracepoint.h>
#include <scalopus_tracing/internal/marker_tracepoint.h>
#include <scalopus_tracing/internal/scope_tracepoint.h>
#include <scalopus_tracing/scope_tracing_provider.h>
#include <condition_variable>
#include <deque>
#include <set>
#include <thread>
#include "procs.h"
#include "sites.h"
static ShLog* L;

// ------------------------------------------------------------------------- a back-end that keeps what macros gave it
struct Rec { const char* kind; unsigned int id; long v; };
static thread_local std::vector<Rec>* t_rec = nullptr;
static std::mutex g_ids_m;
static std::set<unsigned int> g_ids;
static std::atomic<int> g_hold{ 0 };   // 1: hold, 2: held
static thread_local bool t_hold = false;
static void put(const char* k, unsigned int id, long v)
{
  t_hold = false;
  if (t_rec) t_rec->push_back({ k, id, v });
  std::lock_guard<std::mutex> l(g_ids_m);
  g_ids.insert(id);
}
namespace scalopus
{
void scope_entry(const unsigned int id) { put("entry", id, 0); }
void scope_exit(const unsigned int id) { put("exit", id, 0); }
void mark_event(const unsigned int id, const MarkLevel level)
{
  put(level == MarkLevel::GLOBAL ? "markg" : level == MarkLevel::PROCESS ? "markp" : level == MarkLevel::THREAD ? "markt" : "?", id, 0);
}
void count_event(const unsigned int id, const std::int64_t v) { put("count", id, v); }
}  // namespace scalopus

// A thread that is to be held stops at the first lock it takes in the macro.
static void maybe_hold()
{
  if (!t_hold) return;
  t_hold = false;
  g_hold = 2;
  for (int i = 0; i < 20000 && g_hold == 2; i++) nap_us(100);
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* r)
{
  static auto real = reinterpret_cast<int (*)(pthread_rwlock_t*)>(dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"));
  maybe_hold();
  return real(r);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* r)
{
  static auto real = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
  maybe_hold();
  return real(r);
}

// ------------------------------------------------------------------------------------------------------- the processes
static thread_local std::string t_name, t_series;
static thread_local bool t_count;
static thread_local int t_p;
static thread_local bool t_want_hold = false;
static std::string fullname() { return hex(t_count ? t_name + "/" + t_series : t_name); }
void expect(const char* name, const char* series)
{
  t_name = name; t_count = series != nullptr; t_series = series ? series : "";
  L->put("{\"e\":\"ExecB\",\"p\":%d,\"n\":\"%s\"}", t_p, fullname().c_str());
  t_hold = t_want_hold; t_want_hold = false;
}
static void execute(int p, const Program& prog, int s, long v, bool hold = false)
{
  std::vector<Rec> rec;
  t_p = p; t_rec = &rec; t_want_hold = hold;
  const Site& site = prog.sites[(s - 1) % prog.n];
  site.run(v);
  t_rec = nullptr; t_hold = false;
  std::string r;
  for (auto& x : rec) { char b[96]; snprintf(b, sizeof b, "%s[\"%s\",\"%x\",\"%ld\"]", r.empty() ? "" : ",", x.kind, x.id, x.v); r += b; }
  L->put("{\"e\":\"ExecE\",\"p\":%d,\"k\":\"%s\",\"n\":\"%s\",\"cn\":\"%s\",\"cs\":\"%s\",\"v\":\"%ld\",\"rec\":[%s]}", p, site.kind, fullname().c_str(),
         hex(t_name).c_str(), hex(t_series.empty() ? "count" : t_series).c_str(), v, r.c_str());
}
struct Worker
{
  std::thread t;
  std::mutex m;
  std::condition_variable cv;
  std::deque<std::pair<int, long>> todo;
  bool busy{ false };
};
static void process(int p, Pipe c)
{
  const Program& prog = p % 2 ? program1 : program2;
  std::map<int, Worker> ws;
  EndpointTraceMapping ep;
  bool par = false;
  std::thread held;
  std::atomic<bool> done{ false };
  for (int k = 1; k <= 3; k++)
  {
    Worker* W = &ws[k];
    W->t = std::thread([W, p, &prog] {
      for (;;)
      {
        std::pair<int, long> x;
        {
          std::unique_lock<std::mutex> l(W->m);
          W->cv.wait(l, [&] { return !W->todo.empty(); });
          x = W->todo.front(); W->todo.pop_front(); W->busy = true;
        }
        execute(p, prog, x.first, x.second);
        { std::lock_guard<std::mutex> l(W->m); W->busy = false; }
        W->cv.notify_all();
      }
    });
  }
  auto settle = [&] { for (auto& w : ws) { std::unique_lock<std::mutex> l(w.second.m); w.second.cv.wait(l, [&] { return w.second.todo.empty() && !w.second.busy; }); } };
  auto unhold = [&] { g_hold = 0; if (held.joinable()) held.join(); };
  std::string line;
  while (c.receive(line))
  {
    std::istringstream is(line);
    std::string op, b; int k = 0, s = 0; long v = 0;
    is >> op;
    if (op == "x")
    {
      is >> k >> s >> v;
      { std::lock_guard<std::mutex> l(ws[k].m); ws[k].todo.emplace_back(s, v); }
      ws[k].cv.notify_all();
    }
    else if (op == "race")   // one thread stands in the middle of announcing the name, another one comes
    {
      is >> s;
      unhold();
      g_hold = 1;
      done = false;
      held = std::thread([&, s] { execute(p, prog, s, 1, true); done = true; });
      wait_until([&] { return g_hold == 2 || done; }, 5);
      std::atomic<bool> second{ false };
      std::thread t2([&] { execute(p, prog, s, 2); second = true; });
      if (!wait_until([&] { return second.load(); }, 0.05)) g_hold = 0;   // it waits for the first one, which is fine
      t2.join();
      if (done || g_hold == 0) unhold();
    }
    else if (op == "unhold") unhold();
    else if (op == "par") par = true;
    else if (op == "seq") { par = false; settle(); }
    else if (op == "ids")
    {
      std::lock_guard<std::mutex> l(g_ids_m);
      b = "i";
      for (auto i : g_ids) b += " " + std::to_string(i);
      c.send(b);
      continue;
    }
    else if (op == "handle")
    {
      is >> b;
      c.send(handle_request(ep, b));
      continue;
    }
    if (!par) settle();
    c.send("ok");
  }
  _exit(0);
}

// ---------------------------------------------------------------------------------------------------------- the client
class Provider : public ScopeTracingProvider
{
public:
  using ScopeTracingProvider::ScopeTracingProvider;
  TraceEventSource::Ptr makeSource() override { return nullptr; }
};
using Map = EndpointTraceMapping::ProcessTraceMap;
static std::mutex g_am;
static std::set<unsigned int> g_all{ 0, 1, 0xffffffffu, 0xabcdef };
static void learn()
{
  for (auto& p : procs)
  {
    std::string r, i;
    if (!ask(*p.second, "ids", r)) continue;
    std::istringstream is(r); is >> i;
    std::lock_guard<std::mutex> l(g_am);
    unsigned long id; while (is >> id) g_all.insert(static_cast<unsigned int>(id));
  }
}
static std::string resolve(const Map& m)
{
  std::string out;
  std::set<unsigned int> ids;
  { std::lock_guard<std::mutex> l(g_am); ids = g_all; }
  for (auto& pm : m) for (auto& x : pm.second) ids.insert(x.first);
  for (auto& p : procs)
    for (auto id : ids)
    {
      const std::string n = ScopeTracingProvider::getScopeName(m, p.second->pid, id);
      // a placeholder shows the id in hexadecimal, whatever else it says
      char h[16]; snprintf(h, sizeof h, "%x", id);
      std::string low; for (char ch : n) low += static_cast<char>(tolower(ch));
      auto pm = m.find(p.second->pid);
      const bool known = pm != m.end() && pm->second.count(id);
      const bool ph = !known && low.find(h) != std::string::npos;
      if (ph) continue;   // nothing to compare
      auto sp = ScopeTracingProvider::splitCounterSeriesName(n);
      char b[64]; snprintf(b, sizeof b, "%s[%d,\"%x\",\"", out.empty() ? "" : ",", p.first, id);
      out += b + hex(n) + "\",0,\"" + hex(sp.first) + "\",\"" + hex(sp.second) + "\"]";
    }
  return out;
}
static void log_line(const std::string& s)
{
  // longer than a line of the log may be
  L->lock();
  if (L->len + s.size() + 1 < sizeof L->buf) { memcpy(L->buf + L->len, s.data(), s.size()); L->len += s.size(); L->buf[L->len++] = '\n'; }
  L->unlock();
}
static void query(Provider& pr, int q)
{
  L->put("{\"e\":\"QB\",\"q\":%d}", q);
  learn();
  try { pr.updateMapping(); auto m = pr.getMapping(); log_line("{\"e\":\"QE\",\"q\":" + std::to_string(q) + ",\"res\":[" + resolve(m) + "]}"); }
  catch (const std::exception&) { L->put("{\"e\":\"QFail\",\"q\":%d}", q); }
}
static void direct(const std::shared_ptr<EndpointTraceMapping>& ep, int p, int q)
{
  L->put("{\"e\":\"QB\",\"q\":%d}", q);
  learn();
  const std::string h = "{\"e\":\"DE\",\"q\":" + std::to_string(q) + ",\"p\":" + std::to_string(p);
  try { auto m = ep->mapping(); log_line(h + ",\"r\":\"ok\",\"res\":[" + resolve(m) + "]}"); }
  catch (const std::exception&) { log_line(h + ",\"r\":\"exc\",\"res\":[]}"); }
}

int main()
{
  L = ShLog::create();
  std::string line;
  std::getline(std::cin, line);
  if (line.compare(0, 6, "split ") == 0)
  {
    auto sp = ScopeTracingProvider::splitCounterSeriesName(unhex(line.substr(6)));
    printf("%s %s\n", hex(sp.first).c_str(), hex(sp.second).c_str());
    return 0;
  }
  int n = std::stoi(line.substr(6));
  if (!spawn(n, process)) return 3;
  auto mgr = std::make_shared<Manager>();
  std::map<std::pair<int, int>, std::shared_ptr<Link>> links;
  Provider provider(mgr);
  std::vector<std::thread> queries;
  bool par = false;
  int q = 0;
  std::string r;
  auto settle = [&] { for (auto& t : queries) t.join(); queries.clear(); };
  L->put("{\"e\":\"Go\",\"n\":%d}", n);
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    std::string op, m; int p = 0, i = 0;
    is >> op;
    if (op == "p")
    {
      is >> p; std::getline(is, m);
      ask(*procs[p], m.substr(1), r);
    }
    else if (op == "par") { par = true; for (auto& x : procs) ask(*x.second, "par", r); }
    else if (op == "seq") { settle(); par = false; for (auto& x : procs) ask(*x.second, "seq", r); }
    else if (op == "link")
    {
      is >> p >> i >> m;
      auto l = std::make_shared<Link>(p, EndpointTraceMapping::name);
      l->mode = m;
      if (m == "none") mgr->eps[l] = {};
      else mgr->eps[l] = { { EndpointTraceMapping::name, EndpointTraceMapping::factory(l) } };
      auto old = links.find({ p, i });
      if (old != links.end()) mgr->eps.erase(old->second);
      links[{ p, i }] = l;
      L->put("{\"e\":\"Link\",\"p\":%d,\"i\":%d,\"m\":\"%s\"}", p, i, m.c_str());
    }
    else if (op == "unlink")
    {
      is >> p >> i;
      auto old = links.find({ p, i });
      if (old != links.end()) { mgr->eps.erase(old->second); links.erase(old); }
      L->put("{\"e\":\"Link\",\"p\":%d,\"i\":%d,\"m\":\"none\"}", p, i);
    }
    else if (op == "kill") { is >> p; end_process(p); L->put("{\"e\":\"Dead\",\"p\":%d}", p); }
    else if (op == "q")
    {
      const int id = ++q;
      if (par) queries.emplace_back([&provider, id] { query(provider, id); });
      else query(provider, id);
    }
    else if (op == "direct")
    {
      is >> p;
      auto l = links.find({ p, 1 });
      if (l == links.end()) continue;
      auto ep = EndpointTraceMapping::factory(l->second);
      const int id = ++q;
      if (par) queries.emplace_back([=] { direct(ep, p, id); });
      else direct(ep, p, id);
    }
  }
  settle();
  for (auto& p : procs) end_process(p.first);
  L->put("{\"e\":\"Done\"}");
  L->dump(stdout);
  _exit(0);
}
