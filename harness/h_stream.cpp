// Output in arbitrary fragments through the babeltrace parser (or the tool that runs it) while callbacks come and go.
// stdin: parser|tool; stream; w <complete lines> <hex>; nap <us>; set c slow; again c; dis c; sync; settle; eof <partial>; halt; quit
#include <scalopus_tracing/babeltrace_tool.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <condition_variable>
#include <deque>
#include <sstream>
#include <thread>
#include "shlog.h"
using namespace scalopus;
static ShLog* L;
static std::string unhex(const std::string& s) { std::string r; for (size_t i = 1; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16)); return r; }

struct Actor
{
  std::thread t; std::mutex m; std::condition_variable cv; std::deque<std::function<void()>> q; bool busy{ false };
  Actor() { t = std::thread([this] { for (;;) { std::function<void()> f; { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return !q.empty(); }); f = std::move(q.front()); q.pop_front(); busy = true; } f(); { std::lock_guard<std::mutex> l(m); busy = false; } cv.notify_all(); } }); t.detach(); }
  void put(std::function<void()> f) { { std::lock_guard<std::mutex> l(m); q.push_back(std::move(f)); } cv.notify_all(); }
  bool idle(double s) { std::unique_lock<std::mutex> l(m); return cv.wait_for(l, std::chrono::duration<double>(s), [&] { return q.empty() && !busy; }); }
};
struct Cb
{
  int id; int slow; int self{ 0 };      // self: disables itself after that many lines
  std::atomic<int> last{ 0 }, from{ 0 };
  std::atomic<bool> on{ true };
  std::vector<int> poss;           // which line the last one may have been
  int low{ 0 };                    // the first one may not be before this one
  std::atomic<int> may{ 0 };       // the last one it may have been
  std::mutex hm;
  std::atomic<bool> gone{ false };
  std::shared_ptr<BabeltraceParser::EventCallback> h;
};
static std::mutex g_m;                          // the lines and what has been written
static std::vector<std::string> g_lines;        // of this stream
static std::string g_part;
static std::atomic<int> g_ws{ 0 };
static std::atomic<int> g_calls{ 0 };
static std::atomic<bool> g_ending{ false };   // babeltrace is being killed
static std::vector<std::shared_ptr<Cb>> g_cbs;  // all there were, by id
static void die(const char* what)
{
  L->put("{\"e\":\"Hang\",\"what\":\"%s\"}", what);
  L->dump(stdout);
  _exit(0);
}
// the lines that read like this one (lines may be the same)
static std::vector<int> numbers(const std::string& line, bool beginning = false)
{
  std::string t = line;
  if (!t.empty() && t.back() == '\n') t.pop_back();
  std::lock_guard<std::mutex> l(g_m);
  std::vector<int> r;
  for (size_t i = 0; i < g_lines.size(); i++) if (beginning ? g_lines[i].compare(0, t.size(), t) == 0 : g_lines[i] == t) r.push_back(static_cast<int>(i) + 1);
  if (!g_part.empty() && (beginning ? g_part.compare(0, t.size(), t) == 0 : t == g_part)) r.push_back(static_cast<int>(g_lines.size()) + 1);
  return r;
}
int main()
{
  signal(SIGPIPE, SIG_IGN);
  L = ShLog::create();
  std::string mode, line;
  std::getline(std::cin, mode);
  const bool tooled = mode == "tool";
  std::string scratch, fifo;
  if (tooled)
  {
    char d[] = "/tmp/verif_stream_XXXXXX";
    if (!mkdtemp(d)) return 3;
    scratch = d;
    setenv("PATH", (scratch + ":" + getenv("PATH")).c_str(), 1);
  }
  // Each stream has a pipe of its own, the process of the one before may still be ending.
  int pipes = 0;
  auto fresh = [&] {
    if (!fifo.empty()) unlink(fifo.c_str());
    fifo = scratch + "/fifo" + std::to_string(++pipes);
    if (mkfifo(fifo.c_str(), 0600)) _exit(3);
    for (auto n : { "babeltrace", "lttng" })
    {
      const std::string script = scratch + "/" + n;
      FILE* f = fopen((script + "_").c_str(), "we"); // they only do something when used in the right way
      fprintf(f, std::string(n) == "lttng" ? "#!/bin/sh\n[ \"$1\" = view ] && [ \"$2\" = session ] && case \"$*\" in *babeltrace*lttng-live*) exec cat '%s';; esac\n"
                                           : "#!/bin/sh\ncase \"$*\" in *lttng-live*net://localhost/host/verif/session*) exec cat '%s';; esac\n", fifo.c_str()); fclose(f); chmod((script + "_").c_str(), 0700);
      rename((script + "_").c_str(), script.c_str());
    }
  };
  auto cleanup = [&] { if (tooled) { for (auto n : { "/babeltrace", "/lttng" }) unlink((scratch + n).c_str()); if (!fifo.empty()) unlink(fifo.c_str()); rmdir(scratch.c_str()); } };
  auto fail = [&](const char* w) { cleanup(); die(w); };
  BabeltraceParser parser;
  auto tool = std::make_unique<BabeltraceTool>();
  Actor writer, clients[3], control;
  std::shared_ptr<Cb> cur[4];
  std::atomic<int> ids{ 0 };
  std::atomic<int> wfd{ -1 };
  FILE* in = nullptr;
  std::thread proc;
  std::atomic<bool> ended{ true };
  bool up = false, eof = false;
  std::atomic<bool> halted{ false };
  std::mutex again;               // a callback isn't added again while it may be removed by a halt
  int streams = 0;
  auto sync = [&] { for (auto a : { &writer, &clients[0], &clients[1], &clients[2], &control }) if (!a->idle(15)) fail("an operation does not return"); };
  auto stopped = [&] { if (!tooled && up) { if (!wait_until([&] { return ended.load(); }, 10)) fail("processing does not end"); proc.join(); fclose(in); } sync(); /* nobody reads any more: writes fail */ if (up) L->put("{\"e\":\"End\"}"); up = false; halted = false; };
  auto closed = [&] { const int f = wfd.exchange(-1); if (f >= 0) close(f); };
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    std::string op, a; int c = 0, n = 0;
    is >> op;
    if (op == "stream")
    {
      sync();
      { std::lock_guard<std::mutex> l(g_m); g_lines.clear(); g_part.clear(); g_ws = 0; for (auto& x : g_cbs) { x->last = 0; x->may = 0; x->low = 0; x->from = 1; x->poss.clear(); } }
      halted = false; eof = g_ending = false;
      streams++;
      L->put("{\"e\":\"Stream\"}");
      if (tooled)
      {
        fresh();
        tool->init(streams % 2 ? "net://localhost/host/verif/session" : "session");
        is >> a;
        if (a != "now" && !wait_until([&] { wfd = open(fifo.c_str(), O_WRONLY | O_NONBLOCK | O_CLOEXEC); return wfd >= 0; }, 10)) fail("babeltrace was not started");
        if (wfd >= 0) fcntl(wfd, F_SETFL, 0);
      }
      else
      {
        int p[2];
        if (pipe2(p, O_CLOEXEC)) return 3;
        in = fdopen(p[0], "r"); wfd = p[1];
        ended = false;
        proc = std::thread([&] { parser.process(in); ended = true; });
        if (!wait_until([&] { return parser.isProcessing(); }, 10)) fail("does not start");
      }
      up = true;
    }
    else if (op == "w")
    {
      is >> n >> a;
      writer.put([=, &wfd] {
        const std::string s = unhex(a);
        {
          std::lock_guard<std::mutex> l(g_m);
          for (char ch : s) { if (ch == '\n') { g_lines.push_back(g_part); g_part.clear(); } else g_part += ch; }
        }
        L->put("{\"e\":\"Wr\",\"n\":%d}", n);
        g_ws = n;
        for (size_t k = 0; k < s.size();) { ssize_t r = write(wfd, s.data() + k, s.size() - k); if (r > 0) k += static_cast<size_t>(r); else if (errno != EINTR) break; }
      });
    }
    else if (op == "nap") { is >> n; writer.put([=] { nap_us(n); }); }
    else if (op == "set")
    {
      int k = 0;
      is >> c >> n >> k;
      clients[c - 1].put([&, c, n, k] {
        auto b = std::make_shared<Cb>();
        b->slow = n; b->self = k;
        { std::lock_guard<std::mutex> l(g_m); b->id = ++ids; g_cbs.push_back(b); }
        auto token = std::make_shared<int>(b->id);     // belongs to the callback: gone once that is disabled
        auto fun = [p = b.get(), token](const CTFEvent& e) {
          std::vector<int> next;
          auto pick = [&](const std::vector<int>& is) {
            for (int k : is) if (p->poss.empty() ? k >= p->low && (p->from == 0 || k <= p->from) : std::find(p->poss.begin(), p->poss.end(), k - 1) != p->poss.end()) next.push_back(k);
          };
          pick(numbers(e.line()));
          const bool frag = next.empty() && g_ending && !e.line().empty() && e.line().back() != '\n';    // what there was when babeltrace was killed
          if (frag) pick(numbers(e.line(), true));
          g_calls++;
          std::string list;
          for (int k : next) list += (list.empty() ? "" : ",") + std::to_string(k);
          const int i = next.empty() ? -1 : next.front();
          p->poss = next;
          if (next.empty())
          {
            std::string hex;
            for (unsigned char ch : e.line().substr(0, 100)) { char b[4]; snprintf(b, sizeof b, "%02x", ch); hex += b; }
            L->put("{\"e\":\"Text\",\"t\":\"%s\",\"size\":%zu}", hex.c_str(), e.line().size());
          }
          L->put("{\"e\":\"CbB\",\"c\":%d,\"is\":[%s],\"frag\":%d}", p->id, list.c_str(), frag ? 1 : 0);
          if (p->slow > 0) nap_us(p->slow * (1 + (i * 7 + p->id) % 5));
          L->put("{\"e\":\"CbE\",\"c\":%d}", *token);
          if (i > 0) { p->may = next.back(); p->last = i; }
          if (p->self > 0 && --p->self == 0)
          {
            auto b = [&] { std::lock_guard<std::mutex> l(g_m); return g_cbs[static_cast<size_t>(p->id) - 1]; }();
            std::shared_ptr<BabeltraceParser::EventCallback> h;
            { std::lock_guard<std::mutex> l(b->hm); h.swap(b->h); }
            if (!h) return;       // being added
            L->put("{\"e\":\"DisB\",\"c\":%d}", b->id);
            b->on = false;      // only then: until then it is waited for
            h->disable();
            L->put("{\"e\":\"DisE\",\"c\":%d}", b->id);
            b->gone = true;
          }
        };
        L->put("{\"e\":\"SetB\",\"c\":%d}", b->id);
        { std::lock_guard<std::mutex> l(g_m); for (auto& x : g_cbs) b->low = std::max<int>(b->low, x->last); }
        if (tooled) { auto h = tool->addCallback(fun); std::lock_guard<std::mutex> l(b->hm); b->h = h; }
        else { auto h = std::make_shared<BabeltraceParser::EventCallback>(); h->callback = fun; { std::lock_guard<std::mutex> l(b->hm); b->h = h; } parser.setCallback(h); }
        if (halted) b->on = false;      // may have been removed
        b->from = g_ws + 1;
        L->put("{\"e\":\"SetE\",\"c\":%d}", b->id);
        cur[c] = b;
      });
    }
    else if (op == "again") { is >> c; clients[c - 1].put([&, c] { if (!cur[c] || tooled) return; std::shared_ptr<BabeltraceParser::EventCallback> h; { std::lock_guard<std::mutex> l(cur[c]->hm); h = cur[c]->h; } std::lock_guard<std::mutex> l(again); if (h && !halted) parser.setCallback(h); }); }
    else if (op == "dis" || op == "forget")
    {
      is >> c;
      clients[c - 1].put([&, c] {
        if (!cur[c]) return;
        cur[c]->on = false;
        L->put("{\"e\":\"DisB\",\"c\":%d}", cur[c]->id);
        std::shared_ptr<BabeltraceParser::EventCallback> h;
        { std::lock_guard<std::mutex> l(cur[c]->hm); h.swap(cur[c]->h); }
        if (h) h->disable(); else wait_until([&] { return cur[c]->gone.load(); }, 10);
        L->put("{\"e\":\"DisE\",\"c\":%d}", cur[c]->id);
        cur[c].reset();
      });
    }
    else if (op == "sync") sync();
    else if (op == "settle")
    {
      sync();
      auto caught = [&](bool sure) {
        if (halted || !up) return true;
        std::lock_guard<std::mutex> l(g_m);
        for (auto& x : g_cbs) if (x->on && x->from > 0 && x->from <= g_ws && (sure ? x->last : x->may) < g_ws) return false;
        return true;
      };
      int calls = -1, same = 0;       // lines that read the same: when it may have been the last one and nothing follows
      const bool calm = wait_until([&] { if (caught(true)) return true; if (g_calls != calls) { calls = g_calls; same = 0; } nap_us(1000); return caught(false) && ++same > 100; }, 10);
      L->put("{\"e\":\"Settled\"}");
      if (!calm) fail("lines did not arrive");
    }
    else if (op == "eof")
    {
      if (!up || eof) continue;
      is >> n;
      eof = true;
      writer.put([=] { L->put("{\"e\":\"Eof\",\"part\":%d}", n); closed(); });
      if (!tooled) { sync(); stopped(); }
    }
    else if (op == "halt")
    {
      if (!up) continue;
      { std::lock_guard<std::mutex> l(again); halted = true; }
      { std::lock_guard<std::mutex> l(g_m); for (auto& x : g_cbs) x->on = false; }
      control.put([&] { g_ending = tooled; L->put("{\"e\":\"HaltB\",\"ends\":%d}", tooled ? 1 : 0); if (tooled) tool->halt(); else parser.halt(); L->put("{\"e\":\"HaltE\"}"); });
      if (!control.idle(15)) fail("halt does not return");
      stopped();
      closed();
    }
    else if (op == "destroy")   // the tool, while it runs
    {
      if (!up || !tooled) continue;
      { std::lock_guard<std::mutex> l(again); halted = true; }
      { std::lock_guard<std::mutex> l(g_m); for (auto& x : g_cbs) x->on = false; }
      sync();
      g_ending = tooled; L->put("{\"e\":\"HaltB\",\"ends\":%d}", tooled ? 1 : 0);
      control.put([&] { tool = std::make_unique<BabeltraceTool>(); });
      if (!control.idle(15)) fail("destruction does not return");
      L->put("{\"e\":\"HaltE\"}");
      stopped();
      closed();
    }
  }
  sync();
  if (up) { halted = true; g_ending = tooled; L->put("{\"e\":\"HaltB\",\"ends\":%d}", tooled ? 1 : 0); if (tooled) tool->halt(); else parser.halt(); stopped(); closed(); }
  L->put("{\"e\":\"Done\"}");
  L->dump(stdout);
  cleanup();
  _exit(0);
}
