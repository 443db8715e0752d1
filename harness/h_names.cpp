// Threads of several real processes name themselves, rename and exit; a client in this process asks for the names.
#include <pthread.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/general.h>
#include <scalopus_general/general_provider.h>
#include <scalopus_general/general_source.h>
#include <scalopus_general/thread_naming.h>
#include <scalopus_interface/endpoint_manager.h>
#include <scalopus_interface/transport.h>
#include <signal.h>
#include <sys/wait.h>
#include <condition_variable>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <thread>
#include "procs.h"
using namespace scalopus;
static ShLog* L;

// ------------------------------------------------------------------------------------------------------- the processes
struct Worker
{
  std::thread t;
  std::mutex m;
  std::condition_variable cv;
  std::deque<std::pair<std::string, std::string>> todo;
  bool busy{ false }, quit{ false };
  std::string tid;
};
static void set_name(int p, const std::string& tid, const std::string& how, const std::string& text)
{
  L->put("{\"e\":\"NameB\",\"p\":%d,\"t\":\"%s\",\"n\":\"%s\"}", p, tid.c_str(), text.c_str());
  const std::string n = unhex(text);
  // the macro names a thread once per place
  if (how == "m1") { static thread_local bool used = false; if (!used) { used = true; TRACE_THREAD_NAME(n); } else ThreadNameTracker::getInstance().setCurrentName(n); }
  else if (how == "m2") { static thread_local bool used = false; if (!used) { used = true; TRACE_THREAD_NAME(n); } else ThreadNameTracker::getInstance().setCurrentName(n); }
  else ThreadNameTracker::getInstance().setCurrentName(n);
  L->put("{\"e\":\"NameE\",\"p\":%d,\"t\":\"%s\",\"n\":\"%s\"}", p, tid.c_str(), text.c_str());
}
static void process(int p, Pipe c)
{
  std::map<int, std::unique_ptr<Worker>> ws;
  auto ep = std::make_shared<EndpointProcessInfo>();
  bool par = false;
  const std::string self = tidname(pthread_self());
  L->put("{\"e\":\"ThStart\",\"p\":%d,\"t\":\"%s\"}", p, self.c_str());
  auto settle = [&] { for (auto& w : ws) { std::unique_lock<std::mutex> l(w.second->m); w.second->cv.wait(l, [&] { return w.second->todo.empty() && !w.second->busy; }); } };
  std::string line;
  while (c.receive(line))
  {
    std::istringstream is(line);
    std::string op, a, b; int k = 0;
    is >> op;
    if (op == "start")
    {
      is >> k;
      auto w = std::make_unique<Worker>();
      Worker* W = w.get();
      std::atomic<bool> up{ false };
      W->t = std::thread([W, p, &up] {
        W->tid = tidname(pthread_self());
        L->put("{\"e\":\"ThStart\",\"p\":%d,\"t\":\"%s\"}", p, W->tid.c_str());
        up = true;
        for (;;)
        {
          std::pair<std::string, std::string> x;
          {
            std::unique_lock<std::mutex> l(W->m);
            W->cv.wait(l, [&] { return W->quit || !W->todo.empty(); });
            if (W->todo.empty()) return;
            x = W->todo.front(); W->todo.pop_front(); W->busy = true;
          }
          set_name(p, W->tid, x.first, x.second);
          { std::lock_guard<std::mutex> l(W->m); W->busy = false; }
          W->cv.notify_all();
        }
      });
      while (!up) std::this_thread::yield();
      ws[k] = std::move(w);
    }
    else if (op == "name")
    {
      is >> k >> a >> b;
      if (k == 0) set_name(p, self, a, b);
      else
      {
        { std::lock_guard<std::mutex> l(ws[k]->m); ws[k]->todo.emplace_back(a, b); }
        ws[k]->cv.notify_all();
      }
    }
    else if (op == "exit")
    {
      is >> k;
      auto w = std::move(ws[k]); ws.erase(k);
      { std::unique_lock<std::mutex> l(w->m); w->cv.wait(l, [&] { return w->todo.empty() && !w->busy; }); }
      L->put("{\"e\":\"ExitB\",\"p\":%d,\"t\":\"%s\"}", p, w->tid.c_str());
      { std::lock_guard<std::mutex> l(w->m); w->quit = true; }
      w->cv.notify_all();
      w->t.join();
      L->put("{\"e\":\"ExitE\",\"p\":%d,\"t\":\"%s\"}", p, w->tid.c_str());
    }
    else if (op == "pname")
    {
      is >> b;
      L->put("{\"e\":\"PNameB\",\"p\":%d,\"n\":\"%s\"}", p, b.c_str());
      ep->setProcessName(unhex(b));
      L->put("{\"e\":\"PNameE\",\"p\":%d,\"n\":\"%s\"}", p, b.c_str());
    }
    else if (op == "par") par = true;
    else if (op == "seq") { par = false; settle(); }
    else if (op == "handle")
    {
      is >> b;
      c.send(handle_request(*ep, b));
      continue;
    }
    if (!par) settle();
    c.send("ok");
  }
  _exit(0);
}

// ---------------------------------------------------------------------------------------------------------- the client
static void interval(GeneralProvider::Ptr provider, TraceEventSource::Ptr src, int q)
{
  L->put("{\"e\":\"QB\",\"q\":%d}", q);
  std::string ps, ts;
  int odd = 0;
  try
  {
    if (!src) src = provider->makeSource();
    src->startInterval();
    src->stopInterval();
    for (const auto& j : src->finishInterval())
    {
      const int p = proc_of(j.at("pid").get<long>());
      const std::string what = j.at("name").get<std::string>(), n = hex(j.at("args").at("name").get<std::string>());
      if (j.at("ph").get<std::string>() != "M") odd++;
      if (what == "process_name") ps += (ps.empty() ? "" : ",") + ("[" + std::to_string(p) + ",\"" + n + "\"]");
      else if (what == "thread_name") ts += (ts.empty() ? "" : ",") + ("[" + std::to_string(p) + ",\"" + tidname(j.at("tid").get<unsigned long>()) + "\",\"" + n + "\"]");
      else odd++;
    }
  }
  catch (const std::exception& e) { L->put("{\"e\":\"QFail\",\"q\":%d}", q); return; }
  L->put("{\"e\":\"QE\",\"q\":%d,\"ps\":[%s],\"ts\":[%s],\"odd\":%d}", q, ps.c_str(), ts.c_str(), odd);
}
static void info(int p, const std::shared_ptr<EndpointProcessInfo>& ep, int q)
{
  L->put("{\"e\":\"QB\",\"q\":%d}", q);
  try
  {
    auto i = ep->processInfo();
    std::string ts;
    for (auto& t : i.threads) ts += (ts.empty() ? "" : ",") + ("[" + std::to_string(p) + ",\"" + tidname(t.first) + "\",\"" + hex(t.second) + "\"]");
    if (i.pid == 0) L->put("{\"e\":\"IE\",\"q\":%d,\"p\":%d,\"r\":\"none\"}", q, p);
    else L->put("{\"e\":\"IE\",\"q\":%d,\"p\":%d,\"r\":\"ok\",\"pp\":%d,\"n\":\"%s\",\"ts\":[%s]}", q, p, proc_of(i.pid), hex(i.name).c_str(), ts.c_str());
  }
  catch (const std::exception&) { L->put("{\"e\":\"IE\",\"q\":%d,\"p\":%d,\"r\":\"exc\"}", q, p); }
}

int main()
{
  L = ShLog::create();
  std::string line;
  std::getline(std::cin, line);
  int n = std::stoi(line.substr(6));
  if (!spawn(n, process)) return 3;
  std::string r;
  auto mgr = std::make_shared<Manager>();
  std::map<std::pair<int, int>, std::shared_ptr<Link>> links;
  std::map<int, std::shared_ptr<EndpointProcessInfo>> direct;
  auto provider = std::make_shared<GeneralProvider>(mgr);
  std::map<int, TraceEventSource::Ptr> sources;
  std::vector<std::thread> queries;
  bool par = false;
  int q = 0;
  auto settle = [&] { for (auto& t : queries) t.join(); queries.clear(); };
  L->put("{\"e\":\"Go\",\"n\":%d}", n);
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    std::string op, m; int p = 0, i = 0;
    is >> op;
    if (op == "p")
    {
      is >> p; std::getline(is, m);
      std::string x;
      ask(*procs[p], m.substr(1), x);
    }
    else if (op == "par") { par = true; for (auto& x : procs) ask(*x.second, "par", r); }
    else if (op == "seq") { settle(); par = false; for (auto& x : procs) ask(*x.second, "seq", r); }
    else if (op == "link")   // process, number, mode; one endpoint per link
    {
      is >> p >> i >> m;
      auto l = std::make_shared<Link>(p, EndpointProcessInfo::name);
      l->mode = m;
      auto ep = EndpointProcessInfo::factory(l);
      if (m == "none") mgr->eps[l] = {};
      else mgr->eps[l] = { { EndpointProcessInfo::name, ep } };
      auto old = links.find({ p, i });
      if (old != links.end()) mgr->eps.erase(old->second);
      links[{ p, i }] = l;
      direct[p] = ep;
      L->put("{\"e\":\"Link\",\"p\":%d,\"i\":%d,\"m\":\"%s\"}", p, i, m.c_str());
    }
    else if (op == "unlink")
    {
      is >> p >> i;
      auto old = links.find({ p, i });
      if (old != links.end()) { mgr->eps.erase(old->second); links.erase(old); }
      L->put("{\"e\":\"Link\",\"p\":%d,\"i\":%d,\"m\":\"none\"}", p, i);
    }
    else if (op == "kill")
    {
      is >> p;
      end_process(p);
      L->put("{\"e\":\"Dead\",\"p\":%d}", p);
    }
    else if (op == "q")   // number of the source, 0: a new one
    {
      is >> i;
      if (i && !sources[i]) sources[i] = provider->makeSource();
      auto s = i ? sources[i] : nullptr;
      const int id = ++q;
      if (par) queries.emplace_back([=] { interval(provider, s, id); });
      else interval(provider, s, id);
    }
    else if (op == "info")
    {
      is >> p;
      auto l = links.find({ p, 1 });
      if (l == links.end()) continue;
      auto ep = EndpointProcessInfo::factory(l->second);
      const int id = ++q;
      if (par) queries.emplace_back([=] { info(p, ep, id); });
      else info(p, ep, id);
    }
  }
  settle();
  for (auto& p : procs) end_process(p.first);
  L->put("{\"e\":\"Done\"}");
  L->dump(stdout);
  fflush(stdout);
  _exit(0);
}
