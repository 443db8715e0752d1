// Processes that serve, stop, die, discover and connect as a script tells them; records what they observe.
#include <scalopus_interface/endpoint.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <sched.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <thread>
#include <vector>
#include "interpose.h"
#include "shlog.h"
using namespace scalopus;
static ShLog* L;
struct Shared { std::atomic<long> pid[32]; std::atomic<long> done[32]; };
static Shared* S;
static IpCfg g_cfg;
static bool g_ns = false;

class Who : public Endpoint
{
public:
  std::string answer;
  std::string getName() const override { return "who"; }
  bool handle(Transport&, const Data&, Data& o) override { o.assign(answer.begin(), answer.end()); return true; }
};

static bool readLine(int fd, std::string& s)
{
  s.clear();
  char c;
  for (;;)
  {
    ssize_t r = ::read(fd, &c, 1);
    if (r == -1 && errno == EINTR) continue;
    if (r <= 0) return false;
    if (c == '\n') return true;
    s += c;
  }
}

static std::map<long, Destination::Ptr> g_dest;   // by process id, everything ever seen
static std::map<int, Transport::Ptr> g_conn;
static std::mutex g_m;

static void discover(int me, int id, bool log)
{
  TransportUnixFactory f;
  if (log) L->put("{\"e\":\"DiscB\",\"p\":%d,\"i\":%d}", me, id);
  auto ds = f.discover();
  std::string list; int other = 0;
  for (auto& d : ds)
  {
    const long pid = long(d->hash_code());
    { std::lock_guard<std::mutex> l(g_m); g_dest[pid] = d; }
    int p = 0;
    for (int i = 1; i < 32; i++) if (S->pid[i] == pid) p = i;
    if (p == 0) other++;
    else list += (list.empty() ? "" : ",") + std::to_string(p);
  }
  if (log) L->put("{\"e\":\"DiscE\",\"p\":%d,\"i\":%d,\"list\":[%s],\"other\":%d}", me, id, list.c_str(), g_ns ? other : 0);
}
static void connectTo(int me, int id, int to)
{
  TransportUnixFactory f;
  Destination::Ptr d;
  {
    std::lock_guard<std::mutex> l(g_m);
    if (g_dest.count(S->pid[to])) d = g_dest[S->pid[to]];
  }
  if (!d) return;
  L->put("{\"e\":\"ConnB\",\"p\":%d,\"i\":%d,\"to\":%d}", me, id, to);
  auto t = f.connect(d);
  { std::lock_guard<std::mutex> l(g_m); if (t) g_conn[id] = t; }
  L->put("{\"e\":\"ConnE\",\"p\":%d,\"i\":%d,\"ok\":%s}", me, id, t ? "true" : "false");
}
static void dropConn(int me, int id)
{
  Transport::Ptr t;
  { std::lock_guard<std::mutex> l(g_m); if (!g_conn.count(id)) return; t = g_conn[id]; g_conn.erase(id); }
  L->put("{\"e\":\"Drop\",\"i\":%d}", id);
  t.reset();
}

static void agent(int me, int fd)
{
  std::string line;
  Transport::Ptr srv;
  int inc = 0;
  ip_set(&g_cfg);
  while (readLine(fd, line))
  {
    std::istringstream is(line);
    std::string op; is >> op;
    if (op == "serve")
    {
      TransportUnixFactory f;
      L->put("{\"e\":\"ServeB\",\"p\":%d}", me);
      auto t = f.serve();
      if (t)
      {
        auto w = std::make_shared<Who>();
        w->answer = std::to_string(me) + "." + std::to_string(++inc);
        t->addEndpoint(w);
      }
      L->put("{\"e\":\"ServeE\",\"p\":%d,\"ok\":%s}", me, t ? "true" : "false");
      if (t) srv = t;
    }
    else if (op == "stop")
    {
      if (srv)
      {
        L->put("{\"e\":\"StopB\",\"p\":%d}", me);
        srv.reset();
        L->put("{\"e\":\"StopE\",\"p\":%d}", me);
      }
    }
    else if (op == "disc") { int i; is >> i; discover(me, i, true); }
    else if (op == "learn") discover(me, 0, false);
    else if (op == "conn") { int i, to; is >> i >> to; connectTo(me, i, to); }
    else if (op == "drop") { int i; is >> i; dropConn(me, i); }
    else if (op == "swap")   // one connection ends while another one is made
    {
      int o, i, to; is >> o >> i >> to;
      std::thread a([&] { dropConn(me, o); });
      nap_us(1000);
      connectTo(me, i, to);
      a.join();
    }
    else if (op == "alien")   // a destination of another transport
    {
      TransportUnixFactory f; TransportLoopbackFactory lf;
      auto ls = lf.serve();
      auto t = f.connect(ls->getAddress());
      auto u = f.connect(nullptr);
      L->put("{\"e\":\"Alien\",\"p\":%d,\"ok\":%s}", me, (t || u) ? "true" : "false");
    }
    else if (op == "use")
    {
      int i; is >> i;
      Transport::Ptr t;
      { std::lock_guard<std::mutex> l(g_m); if (g_conn.count(i)) t = g_conn[i]; }
      if (t)
      {
        L->put("{\"e\":\"UseB\",\"p\":%d,\"i\":%d}", me, i);
        auto f = t->request("who", Data());
        std::string who = "hang";
        if (wait_until([&] { return f->wait_for(std::chrono::seconds(0)) == std::future_status::ready; }, 8))
        {
          try { auto d = f->get(); who.assign(d.begin(), d.end()); } catch (const std::exception&) { who = "fail"; }
        }
        L->put("{\"e\":\"UseE\",\"p\":%d,\"i\":%d,\"who\":\"%s\"}", me, i, who.c_str());
      }
    }
    else if (op == "quit") { g_conn.clear(); srv.reset(); _exit(0); }
    S->done[me]++;
  }
  _exit(0);
}

static void decoy(const std::string& name, bool abstract)
{
  int fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
  struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
  memcpy(a.sun_path + (abstract ? 1 : 0), name.data(), name.size());
  if (::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a.sun_family) + name.size() + 1) == 0) ::listen(fd, 5);
}

int main()
{
  signal(SIGPIPE, SIG_DFL);
  g_ns = ::unshare(CLONE_NEWUSER | CLONE_NEWNET) == 0;   // no other servers in sight
  L = ShLog::create();
  S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  char scratch[] = "/tmp/discXXXXXX";
  if (!mkdtemp(scratch) || chdir(scratch)) return 3;
  std::map<int, int> pipes;
  std::map<int, long> sent;
  std::vector<std::string> files;
  bool hung = false;
  auto waitFor = [&](int p) {
    if (!wait_until([&] { return S->done[p] >= sent[p]; }, 20)) { L->put("{\"e\":\"Hang\",\"what\":\"process %d\"}", p); hung = true; }
  };
  std::string line;
  while (std::getline(std::cin, line) && !hung)
  {
    std::istringstream is(line);
    std::string op; is >> op;
    if (op.empty()) continue;
    if (op == "cfg")
    {
      is >> g_cfg.seed >> g_cfg.p_delay >> g_cfg.max_delay_us >> g_cfg.p_eintr >> g_cfg.after_close_us;
      continue;
    }
    if (op == "join") { for (auto& kv : pipes) waitFor(kv.first); continue; }
    int p; is >> p;
    if (op == "born")
    {
      int fds[2];
      if (pipe(fds)) return 3;
      L->put("{\"e\":\"Born\",\"p\":%d}", p);
      pid_t c = fork();
      if (c == 0)
      {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        for (auto& kv : pipes) ::close(kv.second);
        ::close(fds[1]);
        S->pid[p] = getpid();
        agent(p, fds[0]);
      }
      ::close(fds[0]);
      S->pid[p] = c;
      pipes[p] = fds[1];
      if (p == 1)
      {
        const std::string n = std::to_string(c);
        decoy("x" + n + "_scalopus", true); decoy("_scalopus", true); decoy(n + "_scalopus2", true); decoy("-" + n + "_scalopus", true);
        decoy(std::string("a\0", 2) + n + "_scalopus", true); decoy("y" + n + "_scalopus", false); decoy(n + "_scalopus", false);
        decoy("scalopus", true); decoy(n, true);
        files = { "y" + n + "_scalopus", n + "_scalopus" };
      }
    }
    else if (op == "kill" || op == "exit")
    {
      L->put("{\"e\":\"GoneB\",\"p\":%d}", p);
      if (op == "exit") { std::string q = "quit\n"; if (::write(pipes[p], q.data(), q.size()) < 0) {} }
      else ::kill(pid_t(S->pid[p]), SIGKILL);
      int st = 0;
      if (!wait_until([&] { return waitpid(pid_t(S->pid[p]), &st, WNOHANG) == pid_t(S->pid[p]); }, 20)) { L->put("{\"e\":\"Hang\",\"what\":\"exit of %d\"}", p); hung = true; break; }
      L->put("{\"e\":\"GoneE\",\"p\":%d,\"ok\":%s}", p, (op == "kill" || (WIFEXITED(st) && WEXITSTATUS(st) == 0)) ? "true" : "false");
      ::close(pipes[p]); pipes.erase(p);
      sent[p] = 0;
    }
    else
    {
      // <op> <process> & ...: do not wait for it
      std::string rest, tok; bool async = false;
      while (is >> tok) { if (tok == "&") async = true; else rest += " " + tok; }
      if (!pipes.count(p)) continue;
      sent[p]++;
      std::string cmd = op + rest + "\n";
      if (::write(pipes[p], cmd.data(), cmd.size()) < 0) {}
      if (!async) waitFor(p);
    }
    for (auto& kv : pipes)
    {
      int st;
      if (waitpid(pid_t(S->pid[kv.first]), &st, WNOHANG) == pid_t(S->pid[kv.first])) { L->put("{\"e\":\"Crash\",\"p\":%d}", kv.first); hung = true; }
    }
  }
  if (!hung) for (auto& kv : pipes) waitFor(kv.first);
  L->dump(stdout);
  for (auto& kv : pipes) ::kill(pid_t(S->pid[kv.first]), SIGKILL);
  for (auto& f : files) ::unlink(f.c_str());
  if (chdir("/") == 0) ::rmdir(scratch);
  printf("{\"e\":\"Done\"}\n");
  fflush(stdout);
  _exit(0);
}
