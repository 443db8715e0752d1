// The endpoint manager on top of servers that come and go, between and in the middle of its rounds.
// fake: servers in this process behind a transport made for this. unix: servers in other processes.
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_interface/exceptions.h>
#include <scalopus_transport/transport_unix.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
#include "shlog.h"
using namespace scalopus;
static ShLog* L;
static bool g_unix = false, g_poll = false, g_reader = false, g_twice = false;
static std::recursive_mutex g_m;

// An endpoint that a server has, or that a factory of the manager made.
class Named : public Endpoint
{
public:
  std::string n; bool client{ false };
  Transport* made_for{ nullptr };
  static std::atomic<int> received;
  std::string getName() const override { return n; }
  bool handle(Transport&, const Data&, Data& o) override { return false; }
  bool unsolicited(Transport& t, const Data&, Data&) override { if (client && &t == made_for) received++; return false; }
};
std::atomic<int> Named::received{ 0 };
class Who : public Endpoint
{
public:
  std::string answer;
  std::string getName() const override { return "who"; }
  bool handle(Transport&, const Data&, Data& o) override { o.assign(answer.begin(), answer.end()); return true; }
};

// ------------------------------------------------------------------------------------------------------ fake transport
struct Server;
class FakeServer : public Transport
{
public:
  PendingResponse request(const std::string&, const Data&) override { return nullptr; }
  std::size_t pendingRequests() const override { return 0; }
};
struct Server
{
  int inc{ 0 };
  bool live{ false };
  std::string mode;   // "", "busy" or "garbage"
  std::vector<std::string> eps;
  std::shared_ptr<FakeServer> t;
  pid_t pid{ 0 };
  int cmd{ -1 }, rdy{ -1 };
};
static std::map<int, Server> g_s;
static std::map<size_t, int> g_pids;   // every process that ever was a server, and which
static void hook(const std::string& pt);
class FakeTransport;
static std::set<FakeTransport*> g_open;

class FakeTransport : public Transport
{
public:
  int s, inc;
  std::vector<std::promise<Data>> never;
  FakeTransport(int s_, int inc_) : s(s_), inc(inc_) { std::lock_guard<std::recursive_mutex> l(g_m); g_open.insert(this); }
  ~FakeTransport() { std::lock_guard<std::recursive_mutex> l(g_m); g_open.erase(this); }
  bool up() const { return g_s[s].live && g_s[s].inc == inc; }
  bool isConnected() const override { std::lock_guard<std::recursive_mutex> l(g_m); return up(); }
  std::size_t pendingRequests() const override { return 0; }
  PendingResponse request(const std::string& name, const Data& out) override
  {
    std::lock_guard<std::recursive_mutex> l(g_m);
    std::promise<Data> p;
    auto f = std::make_shared<std::future<Data>>(p.get_future());
    if (!up()) { p.set_exception(std::make_exception_ptr(communication_error("gone"))); return f; }
    if (g_s[s].mode == "garbage") { p.set_value({ 1, 2, 3 }); return f; }
    if (g_s[s].mode == "busy") { never.push_back(std::move(p)); return f; }
    auto e = g_s[s].t->getEndpoint(name);
    Data r;
    if (e && e->handle(*g_s[s].t, out, r)) p.set_value(r); else never.push_back(std::move(p));
    return f;
  }
};
class FakeDestination : public Destination
{
public:
  int s;
  explicit FakeDestination(int s_) : s(s_) {}
  operator std::string() const override { return "<fake:" + std::to_string(s) + ">"; }
  std::size_t hash_code() const override { return std::size_t(s); }
};
static std::atomic<long> g_rounds{ 0 };
class Factory : public TransportFactory
{
public:
  TransportUnixFactory u;
  std::vector<Destination::Ptr> discover() override
  {
    g_rounds++;
    std::vector<Destination::Ptr> r;
    if (g_unix)
    {
      // in a namespace of its own there are only our servers; otherwise leave the others alone
      for (auto& d : u.discover()) { bool mine = false; for (auto& kv : g_s) mine |= size_t(kv.second.pid) == d->hash_code(); if (mine) r.push_back(d); }
    }
    else
    {
      std::lock_guard<std::recursive_mutex> l(g_m);
      for (auto& kv : g_s) if (kv.second.live) { r.push_back(std::make_shared<FakeDestination>(kv.first)); if (g_twice) r.push_back(std::make_shared<FakeDestination>(kv.first)); }
    }
    hook("disc");
    return r;
  }
  Transport::Ptr serve() override { return nullptr; }
  Transport::Ptr connect(const Destination::Ptr& d) override
  {
    hook("conn");
    Transport::Ptr t;
    if (g_unix) t = u.connect(d);
    else
    {
      std::lock_guard<std::recursive_mutex> l(g_m);
      int s = std::static_pointer_cast<FakeDestination>(d)->s;
      if (g_s[s].live) t = std::make_shared<FakeTransport>(s, g_s[s].inc);
    }
    if (t) hook("ask");
    return t;
  }
};

// -------------------------------------------------------------------------------------------------- servers in processes
static bool readLine(int fd, std::string& s)
{
  s.clear();
  char c;
  for (;;)
  {
    ssize_t r = ::read(fd, &c, 1);
    if (r == -1 && errno == EINTR) continue;
    if (r <= 0) return false;
    if (c == '\n') return true;
    s += c;
  }
}
static void say(int fd, const std::string& s) { if (::write(fd, s.data(), s.size()) < 0) {} }
static void serverProcess(int s, int in, int out)
{
  Transport::Ptr t;
  std::string line;
  while (readLine(in, line))
  {
    std::istringstream is(line);
    std::string op; is >> op;
    if (op == "serve")
    {
      TransportUnixFactory f;
      int inc; is >> inc;
      t = f.serve();
      if (!t) _exit(3);
      auto w = std::make_shared<Who>(); w->answer = std::to_string(s) + " " + std::to_string(inc); t->addEndpoint(w);
      std::string e;
      while (is >> e) { auto n = std::make_shared<Named>(); n->n = e; t->addEndpoint(n); }
      t->addEndpoint(std::make_shared<EndpointIntrospect>());
    }
    if (op == "stop") t.reset();
    if (op == "bcast") { std::string e; is >> e; t->broadcast(e, { 1 }); }
    say(out, "ok\n");
  }
  _exit(0);
}
static void tell(Server& v, const std::string& s) { say(v.cmd, s + "\n"); std::string r; readLine(v.rdy, r); }

static uint64_t g_rnd = 1;
static uint64_t rnd() { g_rnd ^= g_rnd << 13; g_rnd ^= g_rnd >> 7; g_rnd ^= g_rnd << 17; return g_rnd >> 11; }

static void appear(int s, const std::vector<std::string>& eps)
{
  std::lock_guard<std::recursive_mutex> l(g_m);
  Server& v = g_s[s];
  if (v.live) return;
  v.eps = eps;
  std::string list;
  for (auto& e : eps) list += (list.empty() ? "\"" : ",\"") + e + "\"";
  L->put("{\"e\":\"Appear\",\"s\":%d,\"inc\":%d,\"eps\":[%s]}", s, ++v.inc, list.c_str());
  if (!g_unix)
  {
    v.t = std::make_shared<FakeServer>();
    v.t->addEndpoint(std::make_shared<EndpointIntrospect>());
    for (auto& e : eps) { auto n = std::make_shared<Named>(); n->n = e; v.t->addEndpoint(n); }
  }
  else
  {
    if (v.pid == 0)
    {
      int a[2], b[2];
      if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) _exit(3);
      pid_t p = fork();
      if (p == 0)
      {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        for (int i = 3; i < 200; i++) if (i != a[0] && i != b[1]) ::close(i);   // keep nothing alive that belongs to others
        serverProcess(s, a[0], b[1]);
      }
      ::close(a[0]); ::close(b[1]);
      v.pid = p; v.cmd = a[1]; v.rdy = b[0];
      g_pids[size_t(p)] = s;
    }
    std::string c = "serve " + std::to_string(v.inc);
    for (auto& e : eps) c += " " + e;
    tell(v, c);
  }
  v.live = true;
}
static void vanish(int s)
{
  std::lock_guard<std::recursive_mutex> l(g_m);
  Server& v = g_s[s];
  if (!v.live) return;
  L->put("{\"e\":\"Vanish\",\"s\":%d}", s);
  if (g_unix)
  {
    if (rnd() % 2) tell(v, "stop");
    else { ::kill(v.pid, SIGKILL); int st; waitpid(v.pid, &st, 0); v.pid = 0; ::close(v.cmd); ::close(v.rdy); }
  }
  v.live = false;
  v.t.reset();
}
struct Hk { std::string pt; int n; std::string act; int s; std::vector<std::string> eps; };
static std::vector<Hk> g_hooks;
static std::map<std::string, int> g_count;
static void hook(const std::string& pt)
{
  std::lock_guard<std::recursive_mutex> l(g_m);
  const int n = ++g_count[pt];
  for (auto& h : g_hooks)
    if (h.pt == pt && h.n == n)
    {
      if (h.act != "appear") vanish(h.s);
      if (h.act != "vanish") appear(h.s, h.eps);
    }
}

int main()
{
  signal(SIGPIPE, SIG_DFL);
  L = ShLog::create();
  alarm(100);
  std::vector<std::string> ops;
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    std::string op; is >> op;
    if (op == "mode") { std::string m; while (is >> m) { if (m == "unix") g_unix = true; if (m == "poll") g_poll = true; if (m == "reader") g_reader = true; if (m == "twice") g_twice = true; } }
    else if (op == "seed") { is >> g_rnd; g_rnd = g_rnd * 2 + 1; }
    else if (!op.empty()) ops.push_back(line);
  }
  if (g_unix && ::unshare(CLONE_NEWUSER | CLONE_NEWNET) != 0) {}
  auto mgr = std::make_unique<EndpointManagerPoll>(std::make_shared<Factory>());
  auto fact = [&](const std::string& n) {
    mgr->addEndpointFactory(n, [n](const Transport::Ptr& t) -> Endpoint::Ptr {
      if (n == "n") return nullptr;
      auto e = std::make_shared<Named>(); e->n = n; e->client = true; e->made_for = t.get(); e->setTransport(t);
      return e;
    });
    if (n != "n") L->put("{\"e\":\"Fact\",\"n\":\"%s\"}", n.c_str());
  };
  fact("n"); fact("a");
  std::atomic<bool> stop{ false };
  std::thread reader([&] { while (!stop && g_reader) { auto e = mgr->endpoints(); for (auto& kv : e) for (auto& x : kv.second) if (x.second && x.second->getName().empty()) abort(); } });
  if (g_poll) mgr->startPolling(0.002);
  bool hung = false;
  for (const auto& o : ops)
  {
    if (hung) break;
    std::istringstream is(o);
    std::string op; is >> op;
    int s = 0;
    if (op == "appear") { is >> s; std::vector<std::string> e; std::string x; while (is >> x) e.push_back(x); appear(s, e); }
    else if (op == "vanish") { is >> s; vanish(s); }
    else if (op == "busy" || op == "garbage")
    {
      is >> s; std::lock_guard<std::recursive_mutex> l(g_m);
      if (g_s[s].mode.empty()) { L->put("{\"e\":\"Busy\",\"s\":%d}", s); g_s[s].mode = op; }
    }
    else if (op == "free") { is >> s; std::lock_guard<std::recursive_mutex> l(g_m); g_s[s].mode = ""; L->put("{\"e\":\"Free\",\"s\":%d}", s); }
    else if (op == "fact") { std::string n; is >> n; fact(n); }
    else if (op == "round")
    {
      std::vector<Hk> hs; Hk h; int k;
      while (is >> h.pt >> h.n >> h.act >> h.s >> k) { h.eps.clear(); std::string e; for (int i = 0; i < k; i++) { is >> e; h.eps.push_back(e); } hs.push_back(h); }
      if (g_unix)
      {
        // the loss of a server is noticed by the transport, not by the manager
        auto held = mgr->endpoints();
        for (auto& kv : held)
        {
          bool there = false; std::string who;
          if (kv.first->isConnected())
          {
            auto f = kv.first->request("who", {});
            wait_until([&] { return f->wait_for(std::chrono::seconds(0)) == std::future_status::ready || !kv.first->isConnected(); }, 10);
            bool failed = true;
            if (f->wait_for(std::chrono::seconds(0)) == std::future_status::ready) try { f->get(); failed = false; } catch (const std::exception&) {}
            if (failed) wait_until([&] { return !kv.first->isConnected(); }, 10);
          }
        }
      }
      {
        std::lock_guard<std::recursive_mutex> l(g_m);
        L->put("{\"e\":\"RoundB\"}");
        g_hooks = hs; g_count.clear();
      }
      const long r0 = g_rounds;
      if (g_poll) { if (!wait_until([&] { return g_rounds >= r0 + 3; }, 20)) { L->put("{\"e\":\"Hang\",\"what\":\"polling\"}"); hung = true; break; } }
      else mgr->manage();
      auto held = mgr->endpoints();
      std::string list;
      {
        std::lock_guard<std::recursive_mutex> l(g_m);
        g_hooks.clear();
        std::map<int, int> bcasts;
        for (auto& kv : held)
        {
          int hs = 0, inc = 0; bool up = kv.first->isConnected();
          if (auto ft = std::dynamic_pointer_cast<FakeTransport>(kv.first)) { hs = ft->s; inc = ft->inc; }
          else
          {
            const size_t pid = kv.first->getAddress()->hash_code();
            if (g_pids.count(pid)) hs = g_pids[pid];
            auto f = kv.first->request("who", {});
            if (wait_until([&] { return f->wait_for(std::chrono::seconds(0)) == std::future_status::ready; }, 5))
              try { auto d = f->get(); std::istringstream w(std::string(d.begin(), d.end())); w >> hs >> inc; } catch (const std::exception&) { up = false; }
            else up = false;
          }
          if (hs == 0) { up = false; for (auto& x : g_s) if (hs == 0 && !x.second.live) hs = x.first; }
          std::string eps;
          for (auto& e : kv.second)
          {
            std::string n = e.first;
            if (!e.second || e.second->getName() != n || e.second->getTransport() != kv.first.get()) n += "!wrong";
            else if (n != "introspect")
            {
              auto q = std::dynamic_pointer_cast<Named>(e.second);
              if (!q || !q->client || q->made_for != kv.first.get()) n += "!foreign";
            }
            if (kv.first->getEndpoint(e.first) != e.second) n += "!deaf";
            eps += (eps.empty() ? "\"" : ",\"") + n + "\"";
          }
          list += (list.empty() ? "" : ",") + std::string("{\"s\":") + std::to_string(hs) + ",\"inc\":" + std::to_string(inc) + ",\"up\":" + (up ? "true" : "false") + ",\"eps\":[" + eps + "]}";
        }
      }
      held.clear();
      const int open = (g_unix || g_poll || g_reader) ? 0 : int(g_open.size()) + 1;
      L->put("{\"e\":\"RoundE\",\"held\":[%s],\"open\":%d}", list.c_str(), open);
      // broadcasts of the servers
      if (!g_poll && !g_reader)
      {
        std::lock_guard<std::recursive_mutex> l(g_m);
        for (auto& kv : g_s)
          if (kv.second.live)
            for (auto& e : kv.second.eps)
            {
              Named::received = 0;
              if (g_unix)
              {
                tell(kv.second, "bcast " + e);
                auto eps = mgr->endpoints();
                bool expect = false;
                for (auto& x : eps) if (x.first->isConnected() && size_t(kv.second.pid) == x.first->getAddress()->hash_code() && x.second.count(e)) expect = true;
                wait_until([&] { return Named::received > 0; }, expect ? 5 : 0.03);
              }
              else
                for (auto t : std::set<FakeTransport*>(g_open))
                  if (t->s == kv.first && t->inc == kv.second.inc)
                    if (auto x = t->getEndpoint(e)) { Data r; x->unsolicited(*t, { 1 }, r); }
              L->put("{\"e\":\"Bcast\",\"s\":%d,\"ep\":\"%s\",\"n\":%d}", kv.first, e.c_str(), int(Named::received));
            }
      }
    }
  }
  L->dump(stdout);
  if (hung) _exit(0);
  alarm(20);
  stop = true;
  reader.join();
  if (rnd() % 2) mgr->stopPolling();
  mgr.reset();
  for (auto& kv : g_s) if (kv.second.pid) ::kill(kv.second.pid, SIGKILL);
  printf("{\"e\":\"Done\"}\n");
  fflush(stdout);
  _exit(0);
}
