// Messages of native processes through the provider's endpoint to its sources, names come from real processes. The messages are fed by
// a thread of their own, as they are by a transport; lines that start with "wait" are executed when it has nothing left to do.
#include "entries.h"
#include <scalopus_tracing/native_trace_provider.h>
#include <condition_variable>
#include <deque>
#include <iostream>
#include <mutex>
#include <sstream>
#include <thread>
#include "cbor/stl.h"

struct Feed { int i; Data data; };
static std::mutex g_m;
static std::condition_variable g_cv;
static std::deque<Feed> g_feed;
static bool g_busy = false, g_end = false;
static Data message(long pid, const std::string& events)
{
  cbor::cbor_object ev;
  ev.bytes.assign(events.begin(), events.end());
  const std::map<std::string, cbor::cbor_object> m{ { "pid", cbor::cbor_object{ static_cast<unsigned long>(pid) } }, { "events", ev } };
  Data out;
  cbor::to_cbor(m, out);
  return out;
}
int main()
{
  L = ShLog::create();
  if (!preamble()) return 3;
  auto mgr = std::make_shared<Manager>();
  std::map<int, std::shared_ptr<Link>> links;
  link_all(*mgr, links);
  auto provider = std::make_shared<NativeTraceProvider>(mgr);
  auto via = std::make_shared<Link>(0, "none");
  Endpoint::Ptr a = provider->receiveEndpoint(), b = provider->factory(via);
  if (a->getName() != "native_trace_receiver" || b->getName() != a->getName()) L->put("{\"e\":\"Name\"}");
  std::thread feeder([&] {
    for (;;)
    {
      Feed f;
      {
        std::unique_lock<std::mutex> l(g_m);
        g_busy = false;
        g_cv.notify_all();
        g_cv.wait(l, [] { return g_end || !g_feed.empty(); });
        if (g_feed.empty()) return;
        f = std::move(g_feed.front());
        g_feed.pop_front();
        g_busy = true;
      }
      L->put("{\"e\":\"EvB\",\"i\":%d}", f.i);
      try
      {
        Data out;
        if ((f.i % 2 ? a : b)->unsolicited(*via, f.data, out) || !out.empty()) L->put("{\"e\":\"Answered\"}");
      }
      catch (const std::exception& x) { log_line("{\"e\":\"Threw\",\"what\":\"" + hex(x.what()) + "\"}"); }
      L->put("{\"e\":\"EvE\",\"i\":%d}", f.i);
    }
  });
  auto feed = [&](int i, Data d) {
    std::lock_guard<std::mutex> l(g_m);
    g_feed.push_back({ i, std::move(d) });
    g_cv.notify_all();
  };
  auto idle = [&] { std::unique_lock<std::mutex> l(g_m); g_cv.wait(l, [] { return g_feed.empty() && !g_busy; }); };
  std::map<int, TraceEventSource::Ptr> src;
  std::string line;
  bool gone = false;
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    std::string op, x; int i = 0, s = 0, cut = 0;
    is >> op;
    if (op == "wait") { idle(); is >> op; }
    if (op == "chunk" || op == "cut")
    {
      is >> i >> s >> x;
      Data d = message(pid_of(s), unhex(x));
      if (op == "cut") { is >> cut; d.resize(d.size() * static_cast<size_t>(cut) / 1000); }
      feed(i, d);
    }
    else if (op == "raw") { is >> i >> x; const std::string t = unhex(x); feed(i, Data(t.begin(), t.end())); }
    else if (op == "log") { is >> s; if (!gone) { if (s) provider->setLogger([](const std::string&) {}); else provider->setLogger(nullptr); } }
    else
    {
      is >> s;
      if (op == "kill") { end_process(s); L->put("{\"e\":\"Kill\",\"p\":%d}", s); }
      else if (op == "mode") { is >> x; links[s]->mode = x; L->put("{\"e\":\"Mode\",\"p\":%d,\"m\":\"%s\"}", s, x.c_str()); }
      else if (op == "drop") { idle(); src.erase(s); L->put("{\"e\":\"Drop\",\"s\":%d}", s); }
      else if (op == "gone") { idle(); provider.reset(); gone = true; L->put("{\"e\":\"Gone\"}"); }
      else
      {
        if (!src.count(s)) { if (gone) continue; src[s] = provider->makeSource(); }
        try
        {
          L->put("{\"e\":\"Op\",\"s\":%d,\"op\":\"%s\"}", s, op.c_str());
          if (op == "start") { src[s]->startInterval(); L->put("{\"e\":\"Start\",\"s\":%d}", s); }
          else if (op == "stop") { src[s]->stopInterval(); L->put("{\"e\":\"Stop\",\"s\":%d}", s); }
          else if (op == "finish") log_line("{\"e\":\"Finish\",\"s\":" + std::to_string(s) + ",\"res\":" + entries(src[s]->finishInterval()) + "}");
        }
        catch (const std::exception& e) { log_line("{\"e\":\"Threw\",\"s\":" + std::to_string(s) + ",\"what\":\"" + hex(e.what()) + "\"}"); }
      }
    }
  }
  idle();
  { std::lock_guard<std::mutex> l(g_m); g_end = true; g_cv.notify_all(); }
  feeder.join();
  for (auto& p : procs) end_process(p.first);
  L->put("{\"e\":\"Done\"}");
  L->dump(stdout);
  _exit(0);
}
