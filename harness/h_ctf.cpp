// Lines of text through the parser of babeltrace lines: whole, cut anywhere, damaged, and on several threads at once.
// stdin: "seed n", "ev <hex of time text> <hex of line>", "odd <hex>"
#include <scalopus_tracing/ctfevent.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <random>
#include <sstream>
#include <thread>
#include <vector>
using scalopus::CTFEvent;
static std::string unhex(const std::string& s) { std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16)); return r; }
static std::string q(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}
static std::string num(double d) { if (d == 0.0) return "0"; char b[64]; snprintf(b, 64, "%a", d); return b; }
static std::string map(const CTFEvent::IdMap& m)
{
  std::string r = "[";
  for (const auto& x : m) { if (r.size() > 1) r += ","; r += "[" + q(x.first) + ",\"" + std::to_string(x.second) + "\",\"" + std::to_string(static_cast<long long>(x.second)) + "\"]"; }
  return r + "]";
}
template <typename F> static std::string opt(F f) { try { return std::to_string(f()); } catch (const std::out_of_range&) { return "none"; } }
static std::string show(const CTFEvent& e, const std::string& line)
{
  return "\"t\":\"" + num(e.time()) + "\",\"dom\":" + q(e.domain()) + ",\"name\":" + q(e.name()) + ",\"kept\":" + (e.line() == line ? "true" : "false") + ",\"pid\":\"" + opt([&] { return e.pid(); }) + "\",\"tid\":\"" +
         opt([&] { return e.tid(); }) + "\",\"c\":[" + map(e.streamContext()) + "," + map(e.eventContext()) + "," + map(e.eventData()) + "]";
}
static std::string parse(const std::string& line) { CTFEvent e{ line }; std::ostringstream o; o << e; return show(e, line); }
static std::string damage(std::string s, std::mt19937& g)
{
  static const char* bits[] = { "{", "}", "[", "]", " ", ":", "\"", "\\", ", ", " = ", "{ ", " }", "1", "-", "\n", "\t", "99999999999999999999999", "1e999", "nan", "] ", "+", "0x" };
  for (int n = 1 + static_cast<int>(g() % 4); n > 0; n--)
  {
    size_t p = s.empty() ? 0 : g() % (s.size() + 1);
    switch (g() % 6)
    {
      case 0: s.insert(p, bits[g() % 22]); break;
      case 1: s.erase(p, 1 + g() % 3); break;
      case 2: if (p < s.size()) s[p] = static_cast<char>(g()); break;
      case 3: if (p < s.size()) s.replace(p, 1, bits[g() % 22]); break;
      case 4: s.erase(0, p / 2); break;
      default: if (!s.empty()) { size_t b = g() % s.size(); s.insert(p, s.substr(b, g() % 20)); }
    }
  }
  return s;
}
int main()
{
  std::mt19937 g(1);
  std::vector<std::string> lines, res;
  std::string in;
  int n = 0;
  auto keep = [&](const std::string& l) { auto r = parse(l); if (g() % 5 == 0) { lines.push_back(l); res.push_back(r); } return r; };
  while (std::getline(std::cin, in))
  {
    std::istringstream i(in);
    std::string op, a, b;
    i >> op >> a >> b;
    if (op == "seed") g.seed(static_cast<unsigned>(std::stoul(a)));
    else if (op == "odd")
    {
      auto l = unhex(a);
      auto r = keep(l);
      printf("{\"e\":\"Odd\",\"same\":%s}\n", parse(l) == r ? "true" : "false");
    }
    else if (op == "ev")
    {
      n++;
      const auto line = unhex(b);
      const auto want = num(std::strtod(unhex(a).c_str(), nullptr));
      for (std::string tail : { "", "\n" })
        printf("{\"e\":\"Whole\",\"i\":%d,\"wt\":\"%s\",\"line\":%s,\"tail\":%s,%s}\n", n, want.c_str(), q(line + tail).c_str(), q(tail).c_str(), keep(line + tail).c_str());
      std::string last;
      for (size_t k = 0; k < line.size(); k++)
      {
        const std::string tail = g() % 4 ? "" : "\n";
        {
          auto r = keep(line.substr(0, k) + tail);
          if (r != last) printf("{\"e\":\"Cut\",\"i\":%d,\"n\":%zu,\"wt\":\"%s\",%s}\n", n, k, want.c_str(), r.c_str());
          last = r;
        }
      }
      bool same = true;
      for (int k = 0; k < 40; k++)
      {
        auto l = damage(line, g);
        auto r = keep(l);
        same = same && parse(l) == r;
      }
      printf("{\"e\":\"Odd\",\"same\":%s}\n", same ? "true" : "false");
    }
    fflush(stdout);
  }
  // Again, all of them on several threads at once, each in another order.
  bool same[4] = { true, true, true, true };
  std::vector<std::thread> ts;
  for (int t = 0; t < 4; t++)
    ts.emplace_back([&, t] { for (size_t k = 0; k < lines.size(); k++) { size_t j = t % 2 ? k : lines.size() - 1 - k; j = (j + lines.size() * static_cast<size_t>(t) / 4) % lines.size(); if (parse(lines[j]) != res[j]) same[t] = false; } });
  for (auto& t : ts) t.join();
  for (bool s : same) printf("{\"e\":\"Again\",\"same\":%s}\n", s ? "true" : "false");
  printf("{\"e\":\"Done\"}\n");
}
