// Drives clients and a server of a transport through a script of steps and records what can be observed of them.
//
// unix: the server lives in a child process, so it can be killed. loop: the server lives in a thread of this process.
// The script is read from standard input, the events are written to standard output, one JSON object per line.
#include <scalopus_interface/endpoint.h>
#include <scalopus_interface/exceptions.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <condition_variable>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <thread>
#include <vector>
#include "interpose.h"
#include "shlog.h"
#ifdef WITH_BUILTIN
#include "builtin_endpoints.h"
#endif

using namespace scalopus;
static ShLog* L;
// counters in the shared log
enum { HANDLED = 0, GATE = 1, WAITING = 2, REPLIED = 3, UNSOL0 = 8, MARK0 = 32 };
static double PATIENCE = 10;

static Data payload(long tag, size_t size)
{
  Data d(size);
  uint64_t s = 0x9E3779B97F4A7C15ull * (tag + 1);
  for (size_t i = 0; i < size; i++)
  {
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    d[i] = static_cast<Data::value_type>(s >> 24);
  }
  for (size_t i = 0; i < size && i < 4; i++) d[i] = static_cast<Data::value_type>((tag >> (8 * (size < 4 ? 0 : i))) & 0xff);
  return d;
}

// The name an endpoint really has: "e*300" stands for an e with 300 more characters.
static std::string real(const std::string& alias)
{
  const auto i = alias.find('*');
  if (i == std::string::npos) return alias;
  std::string n = alias.substr(0, i);
  for (long k = 0, m = atol(alias.c_str() + i + 1); k < m; k++) n += char('a' + (k * 7 + m) % 26);
  return n;
}

class Ep : public Endpoint
{
public:
  std::string name;
  std::function<bool(Transport&, const Data&, Data&)> h, u;
  std::string getName() const override { return name; }
  bool handle(Transport& t, const Data& i, Data& o) override { return h ? h(t, i, o) : false; }
  bool unsolicited(Transport& t, const Data& i, Data& o) override { return u ? u(t, i, o) : false; }
};

// ------------------------------------------------------------------------------------------------------------- server
static std::atomic<long> g_k{ 0 };
static std::shared_ptr<Ep> serverEndpoint(const std::string& name)
{
  auto e = std::make_shared<Ep>();
  e->name = real(name);
  // sync: unobserved; e*: answer; m*: mute; t*: throw; x*: throw something that isn't an exception; g*: wait for the gate
  // first; z*: answer with nothing; l*: large answer; s*: slow
  e->h = [name](Transport&, const Data& in, Data& out) -> bool {
    if (name == "sync") { out = in; return true; }
    const long k = ++g_k;
    L->put("{\"e\":\"Handle\",\"ep\":\"%s\",\"d\":\"%s\",\"k\":%ld}", name.c_str(), digest(in).c_str(), k);
    L->counter[HANDLED]++;
    const char kind = name[0];
    if (kind == 'g')
    {
      L->counter[WAITING]++;
      wait_until([] { long g = L->counter[GATE]; return g > 0 && L->counter[GATE].compare_exchange_strong(g, g - 1); }, 60);
    }
    if (kind == 's') nap_us(3000);
    if (kind == 'm' || kind == 't' || kind == 'x')
    {
      L->put("{\"e\":\"NoReply\",\"k\":%ld}", k);
      if (kind == 't') throw std::runtime_error("handler");
      if (kind == 'x') throw 42;
      return false;
    }
    if (kind == 'z') out.clear();
    else
    {
      std::string head = name + "#" + std::to_string(k) + "#";
      out.assign(head.begin(), head.end());
      Data rest = payload(k * 7 + 3, kind == 'l' ? 300000 + (k % 7) * 4096 : in.size());
      out.insert(out.end(), rest.begin(), rest.end());
    }
    L->put("{\"e\":\"Reply\",\"k\":%ld,\"rd\":\"%s\"}", k, digest(out).c_str());
    L->counter[REPLIED]++;
    return true;
  };
  return e;
}

static int g_cmd[2], g_ready[2];
static IpCfg g_cli, g_srv;
static std::vector<std::string> g_seps;
static Transport::Ptr g_loop_server;
static std::shared_ptr<TransportLoopbackFactory> g_loop;
static bool g_unix = true;

static bool readLine(int fd, std::string& s)
{
  s.clear();
  char c;
  for (;;)
  {
    ssize_t r = ::read(fd, &c, 1);
    if (r == -1 && errno == EINTR) continue;
    if (r <= 0) return false;
    if (c == '\n') return true;
    s += c;
  }
}
static void writeAll(int fd, const std::string& s)
{
  // Our own pipe to the server may be broken, that isn't what is being looked at.
  sigset_t m; sigemptyset(&m); sigaddset(&m, SIGPIPE);
  pthread_sigmask(SIG_BLOCK, &m, nullptr);
  struct Guard { sigset_t m; ~Guard() { struct timespec z = { 0, 0 }; sigtimedwait(&m, nullptr, &z); pthread_sigmask(SIG_UNBLOCK, &m, nullptr); } } guard{ m };
  size_t o = 0;
  while (o < s.size())
  {
    ssize_t r = ::write(fd, s.data() + o, s.size() - o);
    if (r == -1 && errno == EINTR) continue;
    if (r <= 0) return;
    o += r;
  }
}

static void serverMain()
{
  Transport::Ptr t;
  if (g_unix) { TransportUnixFactory f; t = f.serve(); }
  else { t = g_loop->serve(); g_loop_server = t; }
  if (t)
  {
    for (const auto& n : g_seps) t->addEndpoint(serverEndpoint(n));
    t->addEndpoint(serverEndpoint("sync"));
#ifdef WITH_BUILTIN
    addBuiltin(*t);
#endif
  }
  if (g_unix) ip_set(&g_srv);
  writeAll(g_ready[1], t ? "1\n" : "0\n");
  std::string line;
  while (readLine(g_cmd[0], line))
  {
    std::istringstream is(line);
    std::string op; is >> op;
    if (op == "bcast")
    {
      long n; std::string ep; size_t size; is >> n >> ep >> size;
      Data d = payload(100000 + n, size);
      L->put("{\"e\":\"Bcast\",\"n\":%ld,\"ep\":\"%s\",\"d\":\"%s\"}", n, ep.c_str(), digest(d).c_str());
      t->broadcast(real(ep), d);
    }
    if (op == "stop")
    {
      L->put("{\"e\":\"Going\"}");
      for (int i = 0; i < 50; i++) L->counter[GATE]++;
      break;
    }
  }
  t.reset();
  if (!g_unix) g_loop_server.reset();
}

// ------------------------------------------------------------------------------------------------------------- client
struct Req
{
  Transport::PendingResponse f;
  bool returned{ false }, dropped{ false }, resolved{ false };
  int c{ 0 };
  std::string ep;
};
static std::mutex g_rm;
static std::condition_variable g_rc;
static std::map<long, Req> g_req;

struct Worker
{
  std::deque<std::function<void()>> q;
  std::mutex m;
  std::condition_variable c;
  bool stop{ false }, busy{ false };
  std::thread t{ [this] { run(); } };
  void run()
  {
    std::unique_lock<std::mutex> l(m);
    for (;;)
    {
      c.wait(l, [&] { return stop || !q.empty(); });
      if (q.empty()) return;
      auto f = q.front(); q.pop_front(); busy = true;
      l.unlock(); f(); l.lock();
      busy = false; c.notify_all();
    }
  }
  void post(std::function<void()> f) { std::lock_guard<std::mutex> l(m); q.push_back(std::move(f)); c.notify_all(); }
  bool idle(double s)
  {
    std::unique_lock<std::mutex> l(m);
    return c.wait_for(l, std::chrono::duration<double>(s), [&] { return q.empty() && !busy; });
  }
  ~Worker() { { std::lock_guard<std::mutex> l(m); stop = true; c.notify_all(); } t.join(); }
};
struct Client
{
  Transport::Ptr t;
  std::map<int, std::unique_ptr<Worker>> w;
  std::vector<std::string> eps;
  bool sure{ false }, open{ false };
};
static std::map<int, Client> g_c;
static std::string g_mark;
static bool g_hung = false;
static bool g_dead = false;
static int g_peers = 0;
static pid_t g_pid = 0;

static void hang(const std::string& what)
{
  L->put("{\"e\":\"Hang\",\"what\":\"%s\"}", what.c_str());
  g_hung = true;
}

static void issue(Transport* t, long r, int c, const std::string& ep, size_t size, bool drop)
{
  Data d = payload(r, size);
  L->put("{\"e\":\"Req\",\"r\":%ld,\"c\":%d,\"ep\":\"%s\",\"d\":\"%s\"}", r, c, ep.c_str(), digest(d).c_str());
  auto f = t->request(real(ep), d);
  L->put("{\"e\":\"Ret\",\"r\":%ld}", r);
  if (drop) { f.reset(); L->put("{\"e\":\"Drop\",\"r\":%ld}", r); }
  std::lock_guard<std::mutex> l(g_rm);
  Req& q = g_req[r];
  q.f = f; q.returned = true; q.dropped = drop; q.c = c; q.ep = ep;
  g_rc.notify_all();
}

static std::atomic<long> g_extra{ 1000 };
static std::shared_ptr<Ep> clientEndpoint(int c, const std::string& name)
{
  auto e = std::make_shared<Ep>();
  e->name = real(name);
  // r*: the handler of unsolicited data makes a request itself
  e->u = [c, name](Transport& t, const Data& in, Data&) -> bool {
    const auto d = digest(in);
    L->put("{\"e\":\"Unsol\",\"c\":%d,\"ep\":\"%s\",\"d\":\"%s\"}", c, name.c_str(), d.c_str());
    L->counter[UNSOL0 + c]++;
    if (d == digest(payload(199999, 24))) L->counter[MARK0 + c]++;
    if (name[0] == 'r') issue(&t, g_extra++, c, "e1", 16, false);
    return false;
  };
  e->h = [c, name](Transport&, const Data& in, Data&) -> bool {
    L->put("{\"e\":\"ClientHandle\",\"c\":%d,\"ep\":\"%s\"}", c, name.c_str());
    return false;
  };
  return e;
}

// Waits for a future and logs what it got; false if it isn't ready within the time.
static bool resolve(long r, double seconds)
{
  Transport::PendingResponse f;
  {
    std::unique_lock<std::mutex> l(g_rm);
    g_rc.wait_for(l, std::chrono::duration<double>(seconds), [&] { return g_req.count(r) && g_req[r].returned; });
    if (!g_req.count(r)) return false;
    if (g_req[r].resolved || g_req[r].dropped) return true;
    f = g_req[r].f;
  }
  if (f->wait_for(std::chrono::duration<double>(seconds)) != std::future_status::ready) return false;
  try
  {
    Data d = f->get();
    L->put("{\"e\":\"Ready\",\"r\":%ld,\"rd\":\"%s\"}", r, digest(d).c_str());
  }
  catch (const communication_error&) { L->put("{\"e\":\"Fail\",\"r\":%ld,\"kind\":\"comm\"}", r); }
  catch (const std::future_error&) { L->put("{\"e\":\"Fail\",\"r\":%ld,\"kind\":\"broken\"}", r); }
  catch (const std::exception&) { L->put("{\"e\":\"Fail\",\"r\":%ld,\"kind\":\"other\"}", r); }
  std::lock_guard<std::mutex> l(g_rm);
  g_req[r].resolved = true;
  return true;
}
static bool idleClient(int k, double s)
{
  for (auto& w : g_c[k].w) if (!w.second->idle(s)) return false;
  return true;
}
static std::vector<std::unique_ptr<std::thread>> g_bad;

// A misbehaving peer that knows nothing but the address of the server.
static void rawClient(uint64_t seed, int mode)
{
  int fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
  struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
  std::string n = std::to_string(g_pid) + "_scalopus";
  strncpy(a.sun_path + 1, n.c_str(), sizeof a.sun_path - 2);
  if (::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a.sun_family) + n.size() + 1) == -1) { ::close(fd); return; }
  uint64_t s = seed * 0x9E3779B97F4A7C15ull | 1;
  auto rnd = [&] { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s >> 11; };
  std::string junk;
  if (mode == 0) {}                                              // connect and leave
  else if (mode == 1) for (size_t i = rnd() % 40; i > 0; i--) junk += char(rnd());        // a few random bytes
  else if (mode == 2) junk = std::string(rnd() % 64 + 1, '\xff');  // huge announced lengths
  else if (mode == 3) for (size_t i = 2000 + rnd() % 20000; i > 0; i--) junk += char(rnd() % 3 ? 0 : rnd());
  else if (mode == 4) junk = std::string(rnd() % 64 + 1, '\0');   // zero lengths
  size_t o = 0;
  while (o < junk.size()) { ssize_t r = ::send(fd, junk.data() + o, junk.size() - o, MSG_NOSIGNAL); if (r <= 0) break; o += r; }
  if (rnd() % 2) nap_us(rnd() % 20000);
  if (rnd() % 3 == 0) ::shutdown(fd, SHUT_WR);
  if (rnd() % 2) nap_us(rnd() % 20000);
  ::close(fd);
}

int main(int argc, char** argv)
{
  signal(SIGPIPE, SIG_DFL);   // as in any process: writing to a vanished peer must not kill us
  L = ShLog::create();
  std::vector<std::string> ops;
  std::string line;
  auto cfg = [](std::istringstream& is, IpCfg& c) {
    is >> c.seed >> c.p_delay >> c.max_delay_us >> c.p_short >> c.p_one >> c.p_eintr >> c.after_send_us >> c.after_recv_us;
  };
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    std::string op; is >> op;
    if (op == "mode") { std::string m; is >> m; g_unix = m == "unix"; }
    else if (op == "cli") cfg(is, g_cli);
    else if (op == "srv") cfg(is, g_srv);
    else if (op == "srvdie") { std::string w; long n; is >> w >> n; (w == "send" ? g_srv.die_send : g_srv.die_recv) = n; }
    else if (op == "patience") is >> PATIENCE;
    else if (op == "seps") { std::string n; while (is >> n) g_seps.push_back(n); }
    else if (!op.empty()) ops.push_back(line);
  }
  if (pipe(g_cmd) || pipe(g_ready)) return 3;
  std::unique_ptr<std::thread> loopThread;
  {
    std::string l = "[";
    for (size_t i = 0; i < g_seps.size(); i++) l += (i ? ",\"" : "\"") + g_seps[i] + "\"";
    L->put("{\"e\":\"Init\",\"mode\":\"%s\",\"seps\":%s]}", g_unix ? "unix" : "loop", l.c_str());
  }
  if (g_unix)
  {
    g_pid = fork();
    if (g_pid == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      ::close(g_cmd[1]); ::close(g_ready[0]);
      ip_on_die([] { L->put("{\"e\":\"Going\"}"); });
      serverMain();
      _exit(0);
    }
    ::close(g_cmd[0]); ::close(g_ready[1]);
  }
  else
  {
    g_loop = std::make_shared<TransportLoopbackFactory>();
    loopThread.reset(new std::thread(serverMain));
  }
  std::string rdy;
  if (!readLine(g_ready[0], rdy) || rdy != "1") { fprintf(stderr, "no server\n"); return 3; }
  ip_set(&g_cli);

  auto deadNow = [&] {
    if (g_dead || !g_unix) return g_dead;
    int st;
    if (waitpid(g_pid, &st, WNOHANG) == g_pid)
    {
      g_dead = true;
      L->put("{\"e\":\"Dead\",\"how\":\"%s\",\"code\":%d}", WIFSIGNALED(st) ? "sig" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    }
    return g_dead;
  };

  auto served = [&](const std::string& e) { for (auto& x : g_seps) if (x == e) return true; return false; };
  auto answers = [&](const std::string& e) { return served(e) && e[0] != 'm' && e[0] != 't' && e[0] != 'x'; };
  auto requests = [&] { std::map<long, std::pair<int, std::string>> all; std::lock_guard<std::mutex> l(g_rm); for (auto& kv : g_req) all[kv.first] = { kv.second.c, kv.second.ep }; return all; };
  // An unobserved request and its response: what this client sent before was handled.
  auto roundTrip = [&](int k) {
    auto f = g_c[k].t->request("sync", payload(7777 + k, 8));
    if (!wait_until([&] { return f->wait_for(std::chrono::seconds(0)) == std::future_status::ready; }, PATIENCE))
    {
      if (!deadNow()) hang("sync");
      return false;
    }
    try { f->get(); return true; } catch (const std::exception&) { return false; }
  };
  // Let everything happen that has to happen, then look at the number of outstanding requests.
  auto pend = [&](int k) {
    size_t have = 0, want = 0;
    wait_until([&] {
      want = 0;
      {
        std::lock_guard<std::mutex> l(g_rm);
        for (auto& kv : g_req)
          if (kv.second.c == k && kv.second.f && !kv.second.resolved && kv.second.f->wait_for(std::chrono::seconds(0)) != std::future_status::ready) want++;
      }
      have = g_c[k].t->pendingRequests();
      return have == (g_unix ? want : 0);
    }, PATIENCE / 2);
    L->put("{\"e\":\"Pend\",\"c\":%d,\"n\":%zu}", k, have);
  };
  auto calm = [&] {
    for (auto& kv : g_c) if (kv.second.open && !idleClient(kv.first, PATIENCE)) { hang("request"); return; }
    L->counter[GATE] += 1000;
    for (auto& kv : g_c) if (kv.second.open) { roundTrip(kv.first); if (g_hung) return; }
    const double late = now() + PATIENCE;
    for (auto& a : requests())
    {
      if (!g_c[a.second.first].open) { resolve(a.first, 0.0); continue; }
      if (answers(a.second.second) || deadNow() || !g_unix) resolve(a.first, std::max(0.05, late - now()));
    }
    for (auto& kv : g_c) if (kv.second.open && !deadNow()) pend(kv.first);
    L->counter[GATE] = 0;
  };

  for (const auto& o : ops)
  {
    if (g_hung) break;
    std::istringstream is(o);
    std::string op; is >> op;
    if (op == "conn")
    {
      int k; is >> k;
      Client& c = g_c[k];
      std::string e, list;
      while (is >> e) { c.eps.push_back(e); list += (list.empty() ? "\"" : ",\"") + e + "\""; }
      L->put("{\"e\":\"Conn\",\"c\":%d,\"eps\":[%s]}", k, list.c_str());
      Transport::Ptr t;
      if (g_unix)
      {
        TransportUnixFactory f;
        // The destination is obtained through discovery, as there is no other public way.
        for (const auto& d : f.discover()) if (d->hash_code() == size_t(g_pid)) { t = f.connect(d); break; }
      }
      else t = g_loop->connect(g_loop_server->getAddress());
      if (!t) { L->put("{\"e\":\"ConnFail\",\"c\":%d}", k); continue; }
      c.t = t; c.open = true;
      for (const auto& n : c.eps) t->addEndpoint(clientEndpoint(k, n));
      t.reset();
    }
    else if (op == "sure")
    {
      int k; is >> k;
      if (!g_c[k].open) continue;
      if (roundTrip(k)) { L->put("{\"e\":\"Sure\",\"c\":%d}", k); g_c[k].sure = true; }
    }
    else if (op == "req")
    {
      long r; int k, t; std::string ep; size_t size; std::string fl;
      is >> r >> k >> t >> ep >> size >> fl;
      Client& c = g_c[k];
      if (!c.open) continue;
      { std::lock_guard<std::mutex> l(g_rm); g_req[r].c = k; g_req[r].ep = ep; }
      auto& w = c.w[t];
      if (!w) w.reset(new Worker);
      Transport* tp = c.t.get();
      w->post([=] { issue(tp, r, k, ep, size, fl == "D"); });
    }
    // hints: wait a moment for something to happen, it is no error if it doesn't
    else if (op == "awaith") { long n; is >> n; wait_until([&] { return L->counter[HANDLED] >= n || deadNow(); }, 0.1); }
    else if (op == "awaitr") { long r; is >> r; resolve(r, 0.1); }
    else if (op == "awaitu") { int c; long n; is >> c >> n; wait_until([&] { return L->counter[UNSOL0 + c] >= n || deadNow(); }, 0.1); }
    else if (op == "calm") { if (!deadNow()) calm(); }
    else if (op == "drop")
    {
      long r; is >> r;
      std::unique_lock<std::mutex> l(g_rm);
      if (!g_rc.wait_for(l, std::chrono::duration<double>(PATIENCE), [&] { return g_req[r].returned; })) { l.unlock(); hang("request"); continue; }
      if (!g_req[r].dropped)
      {
        g_req[r].dropped = true;
        g_req[r].f.reset();
        l.unlock();
        L->put("{\"e\":\"Drop\",\"r\":%ld}", r);
      }
    }
    else if (op == "bcast") writeAll(g_cmd[1], o + "\n");
    else if (op == "open") { long n; is >> n; L->counter[GATE] += n; }
    else if (op == "kill") { L->put("{\"e\":\"Going\"}"); ::kill(g_pid, SIGKILL); }
    else if (op == "stop") writeAll(g_cmd[1], "stop\n");
    else if (op == "poll")
    {
      int k; is >> k;
      if (!g_c[k].open) continue;
      L->put("{\"e\":\"PollB\",\"c\":%d}", k);
      size_t n = g_c[k].t->pendingRequests();
      L->put("{\"e\":\"PollE\",\"c\":%d,\"n\":%zu}", k, n);
    }
    else if (op == "isup")
    {
      int k; is >> k;
      if (!g_c[k].open) continue;
      L->put("{\"e\":\"UpB\",\"c\":%d}", k);
      bool up = g_c[k].t->isConnected();
      L->put("{\"e\":\"UpE\",\"c\":%d,\"up\":%s}", k, up ? "true" : "false");
    }
    else if (op == "close")
    {
      int k; is >> k;
      Client& c = g_c[k];
      if (!c.open) continue;
      if (!idleClient(k, PATIENCE)) { hang("request"); continue; }
      c.w.clear();
      L->put("{\"e\":\"Close\",\"c\":%d}", k);
      c.t.reset(); c.open = false; c.sure = false;
      L->put("{\"e\":\"Closed\",\"c\":%d}", k);
    }
    else if (op == "raw") { uint64_t s; int m; is >> s >> m; g_bad.emplace_back(new std::thread([=] { rawClient(s, m); })); }
    else if (op == "warm")
    {
      // A long history in one step: n requests, of which some are always in flight, each answered with its own bytes.
      int k; long n; is >> k >> n;
      if (!g_c[k].open) continue;
      L->counter[GATE] += 1000;   // a handler that waits for the gate would hold everything up
      std::deque<std::pair<long, Transport::PendingResponse>> q;
      std::string bad;
      for (long i = 0; i < n + 8 && bad.empty(); i++)
      {
        if (i < n) q.emplace_back(i, g_c[k].t->request("sync", payload(300000 + i, 12)));
        if (q.empty() || (i < n && q.size() < 8)) continue;
        auto f = q.front(); q.pop_front();
        if (f.second->wait_for(std::chrono::duration<double>(PATIENCE)) != std::future_status::ready) bad = "no answer to request " + std::to_string(f.first);
        else try { if (f.second->get() != payload(300000 + f.first, 12)) bad = "wrong answer to request " + std::to_string(f.first); }
        catch (const std::exception& e) { bad = "failed request " + std::to_string(f.first); }
      }
      L->counter[GATE] = 0;
      if (bad.empty()) L->put("{\"e\":\"Warm\",\"c\":%d,\"n\":%ld}", k, n);
      else if (!deadNow()) { L->put("{\"e\":\"WarmFail\",\"c\":%d,\"what\":\"%s\"}", k, bad.c_str()); g_hung = true; }
    }
    else if (op == "visitors")
    {
      // n other clients that connect and leave again, one after the other.
      long n; is >> n;
      for (long i = 0; i < n; i++)
      {
        int fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
        struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
        std::string nm = std::to_string(g_pid) + "_scalopus";
        strncpy(a.sun_path + 1, nm.c_str(), sizeof a.sun_path - 2);
        ::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a.sun_family) + nm.size() + 1);
        ::close(fd);
      }
    }
    else if (op == "rawjoin") { for (auto& b : g_bad) b->join(); g_bad.clear(); }
    else if (op == "badproc")
    {
      // A well-formed client process that dies, or stalls, in the middle of a message.
      uint64_t s; std::string how, ep; long n; size_t size; is >> s >> how >> n >> ep >> size;
      g_peers++;
      const bool observed = served(ep);   // then its requests are part of the trace
      const int me = 50 + g_peers;
      if (observed) L->put("{\"e\":\"Conn\",\"c\":%d,\"eps\":[]}", me);
      pid_t p = fork();
      if (p == 0)
      {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(20);
        TransportUnixFactory f;
        Transport::Ptr t;
        for (const auto& d : f.discover()) if (d->hash_code() == size_t(g_pid)) { t = f.connect(d); break; }
        if (!t) _exit(0);
        IpCfg c = g_cli; c.seed = s;
        if (how == "die") c.die_send = n;
        if (how == "stall") c.stall_send = n;
        ip_set(&c);
#ifdef WITH_BUILTIN
        if (how == "fuzz")
        {
          uint64_t x = s * 0x9E3779B97F4A7C15ull | 1;
          for (long i = 0; i < n; i++)
          {
            auto q = fuzzRequest([&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x >> 11; });
            auto r = t->request(q.first, q.second);
            if (i % 8 == 7) r->wait_for(std::chrono::milliseconds(20));
          }
          t.reset();
          _exit(0);
        }
#endif
        std::thread w([&] {
          for (int i = 0; i < 3; i++)
          {
            const Data d = payload(50000 + g_peers * 10 + i, size + 5);
            if (observed) L->put("{\"e\":\"Req\",\"r\":%d,\"c\":%d,\"ep\":\"%s\",\"d\":\"%s\"}", 5000 + g_peers * 10 + i, me, ep.c_str(), digest(d).c_str());
            auto r = t->request(real(ep), d);
            r->wait_for(std::chrono::milliseconds(20));
          }
          _exit(0);
        });
        w.join();
      }
      else if (how != "stall")
      {
        int st; waitpid(p, &st, 0);
        if (observed) { L->put("{\"e\":\"Close\",\"c\":%d}", me); L->put("{\"e\":\"Closed\",\"c\":%d}", me); }
      }
    }
    else if (op == "pause") { long us; is >> us; nap_us(us); }
    else if (op == "idle") { int k; is >> k; if (!idleClient(k, PATIENCE)) hang("request"); }
    else if (op == "waitdead")
    {
      if (!wait_until(deadNow, PATIENCE)) { hang("stop"); continue; }
      // the clients notice
      for (auto& kv : g_c)
        if (kv.second.open)
        {
          bool down = wait_until([&] { return !kv.second.t->isConnected(); }, PATIENCE);
          L->put("{\"e\":\"%s\",\"c\":%d}", down ? "Noticed" : "StillUp", kv.first);
        }
    }
    else { fprintf(stderr, "unknown step %s\n", o.c_str()); return 3; }
  }

  if (!g_hung && g_bad.size()) { for (auto& b : g_bad) b->join(); g_bad.clear(); }
  if (!g_hung)
  {
    const bool dead = deadNow();
    if (!dead)
    {
      // a marker to every connected client: once it is there, all earlier broadcasts had to be there
      bool any = false;
      L->counter[GATE] += 1000;
      for (auto& kv : g_c)
        if (!g_hung && kv.second.open && !kv.second.sure && roundTrip(kv.first)) { L->put("{\"e\":\"Sure\",\"c\":%d}", kv.first); kv.second.sure = true; }
      for (auto& kv : g_c) any |= kv.second.open && kv.second.sure;
      if (any) writeAll(g_cmd[1], "bcast 99999 b1 24\n");
      for (auto& kv : g_c)
        if (kv.second.open && kv.second.sure)
          wait_until([&] { return L->counter[MARK0 + kv.first] > 0 || deadNow(); }, PATIENCE);
    }
    if (!g_hung) calm();
  }
  if (!g_hung)
  {
    nap_us(15000);
    for (auto& a : requests()) resolve(a.first, 0.0);
    if (!deadNow())
    {
      // Drop whatever is left, nothing may remain.
      for (auto& a : requests())
      {
        if (!g_c[a.second.first].open) continue;
        std::lock_guard<std::mutex> l(g_rm);
        Req& q = g_req[a.first];
        if (!q.dropped && !q.resolved) { q.dropped = true; q.f.reset(); L->put("{\"e\":\"Drop\",\"r\":%ld}", a.first); }
      }
      for (auto& kv : g_c) if (kv.second.open) pend(kv.first);
    }
    if (deadNow())
    {
      // requests from now on fail at once
      for (auto& kv : g_c)
        if (kv.second.open)
        {
          long r = g_extra++;
          issue(kv.second.t.get(), r, kv.first, "e1", 16, false);
          resolve(r, PATIENCE);
          pend(kv.first);
        }
    }
    else if (g_unix)
    {
      // still there?
      for (auto& kv : g_c) if (kv.second.open) { L->put("{\"e\":\"UpB\",\"c\":%d}", kv.first); bool up = kv.second.t->isConnected(); L->put("{\"e\":\"UpE\",\"c\":%d,\"up\":%s}", kv.first, up ? "true" : "false"); }
    }
    L->put("{\"e\":\"End\"}");
  }
  L->dump(stdout);
  if (g_hung)
  {
    if (g_unix && !g_dead) ::kill(g_pid, SIGKILL);
    _exit(0);
  }
  // Tearing everything down has to work as well.
  alarm(20);
  g_req.clear();
  for (auto& kv : g_c) { kv.second.w.clear(); kv.second.t.reset(); }
  if (!g_dead)
  {
    writeAll(g_cmd[1], "stop\n");
    if (g_unix)
    {
      int st;
      if (!wait_until([&] { return waitpid(g_pid, &st, WNOHANG) == g_pid; }, 15)) { ::kill(g_pid, SIGKILL); printf("{\"e\":\"Hang\",\"what\":\"server stop\"}\n"); fflush(stdout); _exit(0); }
      if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) printf("{\"e\":\"Crash\"}\n");
    }
  }
  if (loopThread) loopThread->join();
  printf("{\"e\":\"Done\"}\n");
  fflush(stdout);
  _exit(0);
}
