// Runs the ring buffer through all interleavings (and, weak, all reorderings) of small programs of a producer and a consumer.
// Input: a line per program: sc|weak <container size> <rotation> <filled> <producer ops> <consumer ops> <limit>; ops: u push, p pop, bN pop_into, s size, e empty; - none
// Output: a line per distinct history: <program number> <JSON list of events>, and at the end: done <executions> <programs cut off>
#include <algorithm>
#include <array>
#include <atomic>
#include <cstring>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <thread>
#include <type_traits>
#include <vector>
#include "vatomic.h"
#define atomic vatomic
#define atomic_size_t vatomic_size_t
#define atomic_thread_fence vatomic_thread_fence
#include "spsc_ringbuffer.h"
#undef atomic
#undef atomic_size_t
#undef atomic_thread_fence

struct Elem
{
  long v{ 0 };
  mutable vm::Cell cell;
  Elem() {}
  explicit Elem(long x) : v(x) {}
  Elem(Elem&& o) { o.cell.write(); v = o.v; o.v = -1; }
  Elem(const Elem& o) { o.cell.read(); v = o.v; }
  Elem& operator=(Elem&& o) { o.cell.write(); cell.write(); v = o.v; o.v = -1; return *this; }
  Elem& operator=(const Elem& o) { o.cell.read(); cell.write(); v = o.v; return *this; }
};
using Ring = scalopus::SPSCRingBuffer<std::vector<Elem>>;

struct Prog { bool weak; int cap, rot, fill; std::string p, c; long limit; };
static std::vector<std::string> split(const std::string& s)
{
  std::vector<std::string> r;
  for (size_t i = 0; i < s.size(); i++)
  {
    if (s[i] == '-') continue;
    if (s[i] == 'b') { r.push_back(s.substr(i, 2)); i++; }
    else r.push_back(s.substr(i, 1));
  }
  return r;
}

int main()
{
  vm::Machine machine;
  vm::Machine::get() = &machine;
  vm::Machine& m = machine;
  std::string line;
  long num = 0, total = 0, cut = 0;
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    Prog g; std::string mode;
    if (!(is >> mode >> g.cap >> g.rot >> g.fill >> g.p >> g.c >> g.limit)) continue;
    g.weak = mode == "weak";
    num++;
    m.weak = g.weak;
    m.path.clear();
    m.visited.clear();
    std::set<std::string> histories;
    const auto po = split(g.p), co = split(g.c);
    long runs = 0;
    for (;;)
    {
      m.reset();
      std::string tr[2];   // of the two threads (weak), or just the first (in order)
      std::string full = "{\"e\":\"Init\",\"cap\":" + std::to_string(g.cap) + ",\"weak\":" + (g.weak ? "true" : "false") + "}";
      std::string key;
      long value = 0;
      // An operation is logged to begin with its first access and to end with its last: the tightest interval there is.
      std::string begun[2];
      // What matters of the order: which operations of the other thread had ended before this began, or had begun before this ended.
      int count[2][2] = {};
      std::string rel[2];
      auto order = [&](char t, int end) {
        const int k = t == 'C';
        rel[k] += char('0' + count[1 - k][1 - end]);
        count[k][end]++;
        m.log = rel[0] + "/" + rel[1];
      };
      auto flush = [&](char t) {
        std::string& b = begun[t == 'C'];
        if (b.empty()) return;
        full += ",{\"t\":\"" + std::string(1, t) + "\"," + b + "}";
        order(t, 0);
        b.clear();
      };
      m.access = [&] { if (m.cur) flush(m.cur == 1 ? 'P' : 'C'); else { flush('P'); flush('C'); } };
      auto ev = [&](char t, const std::string& x) {
        if (x.find("B\"") != std::string::npos) { begun[t == 'C'] = x; tr[t == 'C'] += x; return; }
        flush(t);
        full += ",{\"t\":\"" + std::string(1, t) + "\"," + x + "}";
        order(t, 1);
        tr[t == 'C'] += x;
      };
      {
        Ring ring{ std::vector<Elem>(g.cap) };
        auto push = [&] {
          const long v = ++value;
          ev('P', "\"e\":\"PushB\",\"v\":" + std::to_string(v));
          const bool ok = ring.push(Elem(v));
          m.saw(ok);
          ev('P', std::string("\"e\":\"PushE\",\"ok\":") + (ok ? "true" : "false"));
          return ok;
        };
        auto pop = [&] {
          ev('C', "\"e\":\"PopB\",\"n\":1");
          Elem e(-2);
          const bool ok = ring.pop(e);
          m.saw(ok ? e.v : 0);
          ev('C', "\"e\":\"PopE\",\"got\":[" + (ok ? std::to_string(e.v) : std::string()) + "]");
          return ok;
        };
        auto bulk = [&](int n) {
          ev('C', "\"e\":\"PopB\",\"n\":" + std::to_string(n));
          std::array<Elem, 16> out;
          const size_t k = ring.pop_into(out.begin(), n);
          std::string s;
          size_t filled = 0;
          for (auto& x : out) if (x.v != 0) filled++;
          for (size_t i = 0; i < std::max(k, filled) && i < out.size(); i++) { s += (i ? "," : "") + std::to_string(out[i].v); m.saw(out[i].v); }
          if (k > out.size()) s += ",-9";
          m.saw(k);
          ev('C', "\"e\":\"PopE\",\"got\":[" + s + "]");
        };
        auto look = [&](char t, bool size) {
          ev(t, std::string("\"e\":\"LookB\""));
          if (size) { size_t n = ring.size(); m.saw(n); ev(t, "\"e\":\"SizeE\",\"n\":" + std::to_string(n > 1000000 ? 1000000 : n)); }
          else { bool b = ring.empty(); m.saw(b); ev(t, std::string("\"e\":\"EmptyE\",\"b\":") + (b ? "true" : "false")); }
        };
        auto run = [&](const std::vector<std::string>& ops, char t) {
          for (auto& o : ops)
          {
            if (o[0] == 'u') push();
            else if (o[0] == 'p') pop();
            else if (o[0] == 'b') bulk(o[1] - '0');
            else look(t, o[0] == 's');
          }
        };
        for (int i = 0; i < g.rot; i++) { push(); pop(); }
        for (int i = 0; i < g.fill; i++) push();
        m.body[1] = [&] { run(po, 'P'); };
        m.body[2] = [&] { run(co, 'C'); };
        const bool complete = m.execute();
        runs++;
        if (complete)
        {
          look('C', true);
          look('C', false);
          // What is left comes out now, and it works as before.
          for (int i = 0; i < g.cap + 2 && pop(); i++) {}
          look('C', false);
          push();
          look('C', true);
          pop();
          if (m.race) full += ",{\"t\":\"P\",\"e\":\"Race\"}";
          key = tr[0] + "#" + tr[1] + (g.weak ? "" : m.log) + (m.race ? "R" : "");
          if (histories.insert(key).second) printf("%ld [%s]\n", num, full.c_str());
        }
      }
      if (!m.next()) break;
      if (runs >= g.limit) { cut++; break; }
    }
    total += runs;
  }
  printf("done %ld %ld\n", total, cut);
  return 0;
}
