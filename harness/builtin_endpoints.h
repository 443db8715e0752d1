// The endpoints scalopus itself puts on a server, and payloads that are almost, but not quite, what they expect.
#pragma once
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <nlohmann/json.hpp>
#include <functional>

inline void addBuiltin(scalopus::Transport& t)
{
  t.addEndpoint(std::make_shared<scalopus::EndpointIntrospect>());
  t.addEndpoint(std::make_shared<scalopus::EndpointProcessInfo>());
  t.addEndpoint(std::make_shared<scalopus::EndpointTraceConfigurator>());
  t.addEndpoint(std::make_shared<scalopus::EndpointTraceMapping>());
}

inline std::pair<std::string, scalopus::Data> fuzzRequest(const std::function<uint64_t()>& rnd)
{
  using nlohmann::json;
  static const char* names[] = { "introspect", "process_info", "trace_configurator", "scope_tracing" };
  const std::string ep = names[rnd() % 4];
  std::function<json(int)> any = [&](int depth) -> json {
    switch (rnd() % (depth > 0 ? 9 : 7))
    {
      case 0: return nullptr;
      case 1: return bool(rnd() % 2);
      case 2: return -static_cast<int64_t>(rnd() % 100000);
      case 3: return 0.5;
      case 4: return "set";
      case 5: return "info";
      case 6: return std::string(rnd() % 40, char('a' + rnd() % 26));
      case 7: { json a = json::array(); for (int i = rnd() % 3; i >= 0; i--) a.push_back(any(depth - 1)); return a; }
      default: { json o = json::object(); const char* k[] = { "p", "sp", "t", "cmd", "state", "x" }; for (int i = rnd() % 4; i >= 0; i--) o[k[rnd() % 6]] = any(depth - 1); return o; }
    }
  };
  json req = json::object();
  if (rnd() % 5) req["cmd"] = rnd() % 3 ? json(std::vector<std::string>{ "set", "get", "info" }[rnd() % 3]) : any(1);
  if (rnd() % 2)
  {
    json st = json::object();
    if (rnd() % 5) st["p"] = rnd() % 2 ? json(bool(rnd() % 2)) : any(1);
    if (rnd() % 5) st["sp"] = rnd() % 2 ? json(false) : any(1);
    if (rnd() % 5) st["t"] = rnd() % 2 ? json::array({ json::array({ 1, true }) }) : any(2);
    req["state"] = rnd() % 4 ? st : any(2);
  }
  scalopus::Data d;
  auto b = json::to_bson(req);
  d.assign(b.begin(), b.end());
  const int how = rnd() % 5;
  if (how == 0 && !d.empty()) d.resize(rnd() % d.size());
  if (how == 1 && !d.empty()) for (int i = rnd() % 4; i >= 0; i--) d[rnd() % d.size()] = static_cast<scalopus::Data::value_type>(rnd());
  if (how == 2 && rnd() % 2) { d.clear(); for (int i = rnd() % 24; i > 0; i--) d.push_back(static_cast<scalopus::Data::value_type>(rnd())); }
  return { ep, d };
}
