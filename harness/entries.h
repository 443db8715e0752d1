// The entries trace sources return, in terms of the scenario: its processes, times and ids.
#pragma once
#include <scalopus_interface/trace_event_source.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_tracing/scope_tracing_provider.h>
#include <cmath>
#include <cstdlib>
#include <nlohmann/json.hpp>
#include "procs.h"

static ShLog* L;
static std::vector<std::string> times;                       // text of seconds, in order
static std::map<int, std::string> ids;                       // number in the scenario -> id
static std::map<int, std::map<int, std::string>> names;      // process -> number of id -> name
static constexpr long kStranger = 4194999, kSentinel = 4194998;   // no such processes
static unsigned int id_of(int i) { return static_cast<unsigned int>(std::stoul(ids.at(i))); }
static long pid_of(int p) { return procs.count(p) ? procs[p]->pid : kStranger; }

static void log_line(const std::string& s)
{
  L->lock();
  if (L->len + s.size() + 1 < sizeof L->buf) { memcpy(L->buf + L->len, s.data(), s.size()); L->len += s.size(); L->buf[L->len++] = '\n'; }
  L->unlock();
}
static std::string num(const nlohmann::json& j)
{
  if (j.is_number_unsigned()) return std::to_string(j.get<unsigned long long>());
  if (j.is_number_integer()) return std::to_string(j.get<long long>());
  return "?" + j.dump();
}
static std::string name_of(const std::string& n, bool counter)
{
  for (auto& i : ids)
  {
    std::string ph = scalopus::ScopeTracingProvider::getScopeName({}, 0, id_of(i.first));
    if (counter) ph = scalopus::ScopeTracingProvider::splitCounterSeriesName(ph).first;
    if (ph == n) return "?" + std::to_string(i.first);
  }
  return hex(n);
}
// Entries of the sentinel process are not part of the scenario; those in skip may or may not be there.
static std::string entries(const std::vector<nlohmann::json>& res, const std::function<bool(const nlohmann::json&)>& skip = nullptr)
{
  std::string out;
  for (const auto& e : res)
  {
    std::string r;
    try
    {
      const long pid = e.at("pid").get<long>();
      if (pid == kSentinel || (skip && skip(e))) continue;
      const int p = pid == kStranger ? 9 : proc_of(pid);
      const double us = e.at("ts").get<double>();
      int t = -1;
      double best = 0.75;   // the nearest one, times are at least a microsecond apart
      for (size_t i = 0; i < times.size(); i++)
      {
        const double d = std::fabs(static_cast<double>(std::strtold(times[i].c_str(), nullptr) * 1e6L - static_cast<long double>(us)));
        if (d < best) { best = d; t = static_cast<int>(i); }
      }
      const std::string ph = e.at("ph").get<std::string>();
      const std::string s = e.count("s") ? e.at("s").get<std::string>() : "";
      std::string args;
      if (e.count("args"))
        for (auto it = e.at("args").begin(); it != e.at("args").end(); ++it) args += (args.empty() ? "" : ",") + ("[\"" + hex(it.key()) + "\",\"" + num(it.value()) + "\"]");
      r = "{\"t\":" + std::to_string(t) + ",\"p\":" + std::to_string(p) + ",\"tid\":\"" + num(e.at("tid")) + "\",\"ph\":\"" + ph + "\",\"s\":\"" + s + "\",\"name\":\"" +
          name_of(e.at("name").get<std::string>(), ph == "C") + "\",\"args\":[" + args + "]}";
    }
    catch (const std::exception& x) { r = "{\"odd\":\"" + hex(e.dump()) + "\"}"; }
    out += (out.empty() ? "" : ",") + r;
  }
  return "[" + out + "]";
}
// Each process just has its names and answers for its mapping.
static void mapped_process(int p, Pipe c)
{
  for (auto& n : names[p]) scalopus::StaticStringTracker::getInstance().insert(id_of(n.first), n.second);
  scalopus::EndpointTraceMapping ep;
  std::string line, b;
  while (c.receive(line))
  {
    std::istringstream is(line);
    std::string op;
    is >> op >> b;
    c.send(op == "handle" ? handle_request(ep, b) : "ok");
  }
  _exit(0);
}
// Lines at the start of a scenario, up to "procs n" which starts the processes.
static bool preamble()
{
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    std::string op, a; int p = 0, i = 0;
    is >> op;
    if (op == "time") { is >> a; times.push_back(a); }
    else if (op == "id") { is >> i >> a; ids[i] = a; }
    else if (op == "name") { is >> p >> i >> a; names[p][i] = unhex(a); }
    else if (op == "procs") { is >> p; return spawn(p, mapped_process); }
  }
  return false;
}
static void link_all(Manager& mgr, std::map<int, std::shared_ptr<Link>>& links)
{
  for (auto& p : procs)
  {
    auto l = std::make_shared<Link>(p.first, EndpointTraceMapping::name);
    mgr.eps[l] = { { EndpointTraceMapping::name, EndpointTraceMapping::factory(l) } };
    links[p.first] = l;
  }
}
