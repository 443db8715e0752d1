// Explores the interleavings of operations on a tracker map or on a transport's endpoint registry.
// Input, a line per program: map|reg <bound> <limit> <initial ops>;<ops of thread 1>;<ops of thread 2>;... with ops i<k><v> e<k> c x<k> v<k> m separated by ,
// Output: a line per distinct history: <program> <JSON list of events>; at the end: done <executions> <programs cut off>
#include "fibers.h"
#include <scalopus_general/map_tracker.h>
#include <scalopus_interface/transport.h>
#include <iostream>
#include <set>
#include <sstream>
using namespace scalopus;

struct Key
{
  int k;
  bool operator==(const Key& o) const { fib::point(); return k == o.k; }
};
namespace std
{
template <> struct hash<Key> { size_t operator()(const Key& x) const { fib::point(); return size_t(x.k % 2); } };
}
// A value in two halves; one that is gone says so.
struct Val
{
  int a{ 0 }, b{ 0 };
  Val() {}
  explicit Val(int v) : a(v), b(v) {}
  Val(const Val& o) { a = o.a; fib::point(); b = o.b; }
  Val& operator=(const Val& o) { a = o.a; fib::point(); b = o.b; return *this; }
  ~Val() { a = -7; b = -8; }
  int get() const { return a == b ? a : -1; }
};
class Ep : public Endpoint
{
public:
  std::string n; int v;
  Ep(const std::string& n_, int v_) : n(n_), v(v_) {}
  std::string getName() const override { fib::point(); return n; }
  using Endpoint::setTransport;
  void setTransport(Transport* t) override { fib::point(); Endpoint::setTransport(t); }
};
class Tr : public Transport
{
public:
  PendingResponse request(const std::string&, const Data&) override { return nullptr; }
  std::size_t pendingRequests() const override { return 0; }
};
struct Subject
{
  bool reg;
  MapTracker<Key, Val> m;
  Tr t;
  std::string name(int k) { return "endpoint_with_a_long_name_" + std::to_string(k); }
  // Returns the result as JSON.
  std::string op(const std::string& o)
  {
    const int k = o.size() > 1 ? o[1] - '0' : 0;
    const int v = o.size() > 2 ? atoi(o.c_str() + 2) : 0;
    if (!reg)
    {
      if (o[0] == 'i') { m.insert(Key{ k }, Val(v)); return "0"; }
      if (o[0] == 'e') { m.erase(Key{ k }); return "0"; }
      if (o[0] == 'c') { m.clear(); return "0"; }
      if (o[0] == 'x') return m.exists(Key{ k }) ? "1" : "0";
      if (o[0] == 'v') { int r = 0; try { r = m.getValue(Key{ k }).get(); } catch (const std::out_of_range&) {} return std::to_string(r); }
      auto c = m.getMap();
      std::string s;
      for (auto& kv : c) s += (s.empty() ? "" : ",") + std::string("[") + std::to_string(kv.first.k) + "," + std::to_string(kv.second.get()) + "]";
      return "[" + s + "]";
    }
    if (o[0] == 'i') { t.addEndpoint(std::make_shared<Ep>(name(k), v)); return "0"; }
    auto num = [&](const Endpoint::Ptr& e) { auto p = std::dynamic_pointer_cast<Ep>(e); return p && p->getTransport() == &t ? p->v : -1; };
    if (o[0] == 'v') { auto e = t.getEndpoint(name(k)); return std::to_string(e ? num(e) : 0); }
    auto c = t.endpoints();
    std::string s;
    for (auto& kv : c) { const int q = kv.first.back() - '0'; s += (s.empty() ? "" : ",") + std::string("[") + std::to_string(kv.first == name(q) ? q : 99) + "," + std::to_string(num(kv.second)) + "]"; }
    return "[" + s + "]";
  }
};
static std::string begin(int t, const std::string& o)
{
  const char* n = o[0] == 'i' ? "insert" : o[0] == 'e' ? "erase" : o[0] == 'c' ? "clear" : o[0] == 'x' ? "exists" : o[0] == 'v' ? "value" : "map";
  return "{\"e\":\"B\",\"t\":" + std::to_string(t) + ",\"op\":\"" + n + "\",\"k\":" + std::to_string(o.size() > 1 ? o[1] - '0' : 0) + ",\"v\":" + std::to_string(o.size() > 2 ? atoi(o.c_str() + 2) : 0) + "}";
}
static std::vector<std::string> split(const std::string& s, char c)
{
  std::vector<std::string> r; std::istringstream is(s); std::string x;
  while (std::getline(is, x, c)) r.push_back(x);
  return r;
}
int main()
{
  fib::Sched sched;
  fib::Sched::get() = &sched;
  sched.inside = true;
  std::string line;
  long num = 0, total = 0, cut = 0;
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    std::string what, prog; int bound; long limit;
    if (!(is >> what >> bound >> limit >> prog)) continue;
    num++;
    alarm(60);
    auto parts = split(prog, ';');
    std::set<std::string> histories;
    sched.path.clear();
    sched.bound = bound;
    long runs = 0;
    for (;;)
    {
      auto s = std::make_unique<Subject>();
      s->reg = what == "reg";
      std::string log = "{\"e\":\"Start\"}";
      auto put = [&](const std::string& x) { const bool i = sched.inside; sched.inside = true; log += "," + x; sched.inside = i; };
      for (auto& o : split(parts[0], ',')) if (o != "-") { put(begin(0, o)); put("{\"e\":\"E\",\"t\":0,\"r\":" + s->op(o) + "}"); }
      std::vector<std::function<void()>> fs;
      for (size_t t = 1; t < parts.size(); t++)
        fs.push_back([&, t] {
          sched.inside = true;
          auto ops = split(parts[t], ',');
          for (auto& o : ops)
          {
            put(begin(int(t), o));
            sched.inside = false;
            std::string r = s->op(o);
            sched.inside = true;
            put("{\"e\":\"E\",\"t\":" + std::to_string(t) + ",\"r\":" + r + "}");
            r = std::string();
          }
          sched.inside = false;
        });
      sched.run(fs);
      if (sched.hang) { put("{\"e\":\"Hang\"}"); s.release(); }
      else { put(begin(0, "m")); put("{\"e\":\"E\",\"t\":0,\"r\":" + s->op("m") + "}"); }
      runs++; total++;
      if (histories.insert(log).second) { printf("%ld [%s]\n", num, log.c_str()); fflush(stdout); }
      if (!sched.advance()) break;
      if (runs >= limit) { cut++; break; }
    }
  }
  printf("done %ld %ld\n", total, cut);
  fflush(stdout);
  _exit(0);
}
