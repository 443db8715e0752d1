// Lines of a stand-in for babeltrace through the LTTng provider and its sources, names come from real processes.
#include "entries.h"
#include <scalopus_tracing/lttng_provider.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <thread>

static std::string scratch;
static int g_fifo = -1;
static void cleanup()
{
  for (auto f : { "babeltrace", "fifo" }) unlink((scratch + "/" + f).c_str());
  rmdir(scratch.c_str());
}
static void write_all(const std::string& s)
{
  for (size_t n = 0; n < s.size();) { ssize_t r = write(g_fifo, s.data() + n, s.size() - n); if (r > 0) n += static_cast<size_t>(r); else nap_us(200); }
}
static std::string sentinel(int n)
{
  return "[" + times[0] + "] eagle scalopus_scope_id:mark_event_global: { cpu_id = 0 }, { vpid = " + std::to_string(kSentinel) + ", pthread_id = " + std::to_string(n) + " }, { id = 1 }\n";
}
// Everything written so far has been processed once the sentinel arrives at a source of its own.
static bool settle(TraceEventSource& probe)
{
  static int n = 0;
  const double end = now() + 10;
  for (int i = 0; now() < end; i++)
  {
    probe.startInterval();
    n++;
    write_all(sentinel(n));
    nap_us(i == 0 ? 400 : 3000 * i);
    for (auto& e : probe.finishInterval())
      if (e.at("pid").get<long>() == kSentinel && e.at("tid").get<long>() == n) return true;
  }
  return false;
}
int main()
{
  L = ShLog::create();
  if (!preamble()) return 3;
  char d[] = "/tmp/verif_lttng_XXXXXX";
  if (!mkdtemp(d)) return 3;
  scratch = d;
  const std::string fifo = scratch + "/fifo", script = scratch + "/babeltrace";
  if (mkfifo(fifo.c_str(), 0600)) return 3;
  g_fifo = open(fifo.c_str(), O_RDWR | O_CLOEXEC);
  FILE* f = fopen(script.c_str(), "w");
  fprintf(f, "#!/bin/sh\nexec cat '%s'\n", fifo.c_str());
  fclose(f);
  chmod(script.c_str(), 0700);
  setenv("PATH", (scratch + ":" + getenv("PATH")).c_str(), 1);

  auto mgr = std::make_shared<Manager>();
  std::map<int, std::shared_ptr<Link>> links;
  auto empty = std::make_shared<Manager>();
  {
    auto provider = std::make_shared<LttngProvider>("net://localhost/host/verif/session", mgr);
    std::map<int, TraceEventSource::Ptr> src;
    auto probe = provider->makeSource();
    bool dirty = true;
    auto sync = [&] {
      if (!dirty) return true;
      dirty = false;
      auto eps = std::move(mgr->eps); mgr->eps.clear();      // the probe needs no names
      const bool ok = settle(*probe);
      mgr->eps = std::move(eps);
      if (!ok) { L->put("{\"e\":\"Hang\"}"); L->dump(stdout); for (auto& p : procs) end_process(p.first); cleanup(); _exit(0); }
      return ok;
    };
    sync();
    link_all(*mgr, links);
    std::string line;
    while (std::getline(std::cin, line))
    {
      std::istringstream is(line);
      std::string op, a; int i = 0, s = 0;
      is >> op;
      if (op == "line")
      {
        is >> i >> a;
        a = unhex(a);
        for (size_t k; (k = a.find('@')) != std::string::npos;) a.replace(k, 3, std::to_string(pid_of(a[k + 1] - '0')));
        write_all(a);
        dirty = true;
        L->put("{\"e\":\"Ev\",\"i\":%d}", i);
        continue;
      }
      sync();
      is >> s;
      if (op == "kill") { end_process(s); L->put("{\"e\":\"Kill\",\"p\":%d}", s); }
      else if (op == "mode") { is >> a; links[s]->mode = a; L->put("{\"e\":\"Mode\",\"p\":%d,\"m\":\"%s\"}", s, a.c_str()); }
      else if (op == "drop") { src.erase(s); L->put("{\"e\":\"Drop\",\"s\":%d}", s); }
      else
      {
        if (!src.count(s)) src[s] = provider->makeSource();
        try
        {
          if (op == "start") { src[s]->startInterval(); L->put("{\"e\":\"Start\",\"s\":%d}", s); }
          else if (op == "stop") { src[s]->stopInterval(); L->put("{\"e\":\"Stop\",\"s\":%d}", s); }
          else if (op == "finish") log_line("{\"e\":\"Finish\",\"s\":" + std::to_string(s) + ",\"res\":" + entries(src[s]->finishInterval()) + "}");
        }
        catch (const std::exception& x) { log_line("{\"e\":\"Threw\",\"s\":" + std::to_string(s) + ",\"what\":\"" + hex(x.what()) + "\"}"); }
      }
    }
    sync();
  }
  for (auto& p : procs) end_process(p.first);
  L->put("{\"e\":\"Done\"}");
  L->dump(stdout);
  cleanup();
  _exit(0);
}
