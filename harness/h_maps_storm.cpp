// Many threads on one tracker map and on the endpoint registries of transports that serve requests; for the thread sanitizer.
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/map_tracker.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <thread>
using namespace scalopus;
static std::atomic<long> g_wrong{ 0 }, g_done{ 0 };
#define CHECK(x) do { if (!(x)) { g_wrong++; fprintf(stderr, "line %d: %s\n", __LINE__, #x); } } while (0)

static void maps(int n)
{
  MapTracker<int, std::string> m;
  std::vector<std::thread> ts;
  for (int t = 0; t < 4; t++)
    ts.emplace_back([&, t] {
      for (int i = 0; i < n; i++)
      {
        const int k = t * 1000 + i % 7;     // its own keys: what was inserted is there
        const std::string v = "value " + std::to_string(i);
        m.insert(k, v);
        CHECK(m.exists(k));
        CHECK(m.getValue(k) == v);
        auto all = m.getMap();
        CHECK(all.count(k) && all[k] == v);
        if (i % 3 == 0) { m.erase(k); CHECK(!m.exists(k)); }
        m.insert(-1, v); try { m.getValue(-1); } catch (const std::out_of_range&) {}
        if (i % 5 == 0) m.erase(-1);
        g_done++;
      }
    });
  for (auto& t : ts) t.join();
  m.clear();
  CHECK(m.getMap().empty());
}
class Echo : public Endpoint
{
public:
  std::string n;
  explicit Echo(const std::string& x) : n(x) {}
  std::string getName() const override { return n; }
  bool handle(Transport&, const Data& i, Data& o) override { o = i; return true; }
};
static void registry(const Transport::Ptr& server, const std::vector<Transport::Ptr>& clients, int n)
{
  server->addEndpoint(std::make_shared<EndpointIntrospect>());
  server->addEndpoint(std::make_shared<Echo>("echo"));
  std::vector<std::thread> ts;
  for (int t = 0; t < 2; t++)
    ts.emplace_back([&, t] {
      for (int i = 0; i < n; i++)
      {
        const std::string name = "e" + std::to_string(t) + "_" + std::to_string(i % 40);
        auto e = std::make_shared<Echo>(name);
        server->addEndpoint(e);
        CHECK(server->getEndpoint(name) == e);
        CHECK(server->endpoints().count(name) == 1);
        CHECK(server->getEndpoint("none") == nullptr);
        clients[t]->addEndpoint(std::make_shared<Echo>(name));
        g_done++;
      }
    });
  for (auto& c : clients)
    ts.emplace_back([&, c] {
      for (int i = 0; i < n; i++)
      {
        Data d{ std::uint8_t(i), std::uint8_t(i >> 8), 7 };
        auto f = c->request(i % 3 ? "echo" : EndpointIntrospect::name, d);
        CHECK(f->wait_for(std::chrono::seconds(20)) == std::future_status::ready);
        auto r = f->get();
        if (i % 3) CHECK(r == d);
        server->broadcast("e0_1", d);
      }
    });
  for (auto& t : ts) t.join();
}
int main(int argc, char** argv)
{
  alarm(150);
  const int n = atoi(argv[2]);
  const std::string what = argv[1];
  if (what == "map") maps(n);
  if (what == "loop")
  {
    std::vector<Transport::Ptr> cs;
    TransportLoopbackFactory f;
    auto s = f.serve();
    for (int i = 0; i < 2; i++) cs.push_back(f.connect(f.discover().at(0)));
    if (!cs[0]) return 3;
    registry(s, cs, n);
  }
  if (what == "unix")
  {
    TransportUnixFactory f;
    auto s = f.serve();
    if (!s) return 3;
    std::vector<Transport::Ptr> cs;
    Destination::Ptr d;
    for (auto& x : f.discover()) if (x->hash_code() == size_t(getpid())) d = x;
    if (!d) return 3;
    for (int i = 0; i < 2; i++) cs.push_back(f.connect(d));
    if (!cs[0] || !cs[1]) return 3;
    registry(s, cs, n);
  }
  printf("%ld %ld\n", g_done.load(), g_wrong.load());
  return g_wrong ? 1 : 0;
}
