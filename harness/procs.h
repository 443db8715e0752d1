// Real processes that serve an endpoint over pipes, and what a client needs to reach them in various states of health.
#pragma once
#include <scalopus_interface/endpoint_manager.h>
#include <scalopus_interface/transport.h>
#include <signal.h>
#include <sys/wait.h>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include "shlog.h"
using namespace scalopus;

inline std::string hex(const std::string& s)
{
  static const char* d = "0123456789abcdef";
  std::string r = "x";
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
inline std::string unhex(const std::string& s)
{
  std::string r;
  for (size_t i = 1; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}
inline std::string tidname(unsigned long t) { char b[32]; snprintf(b, sizeof b, "t%lx", t); return b; }

struct Pipe
{
  FILE *in, *out;
  bool send(const std::string& s) { return fprintf(out, "%s\n", s.c_str()) > 0 && fflush(out) == 0; }
  bool receive(std::string& s)
  {
    s.clear();
    for (int c; (c = fgetc(in)) != EOF;) { if (c == '\n') return true; s += static_cast<char>(c); }
    return false;
  }
};
class Null : public Transport
{
public:
  PendingResponse request(const std::string&, const Data&) override { return nullptr; }
  std::size_t pendingRequests() const override { return 0; }
};
struct Proc { Pipe c; pid_t pid{ 0 }; bool alive{ true }; std::mutex m; };
static std::map<int, std::unique_ptr<Proc>> procs;
static bool ask(Proc& p, const std::string& s, std::string& r)
{
  std::lock_guard<std::mutex> l(p.m);
  return p.alive && p.c.send(s) && p.c.receive(r);
}
class Link : public Transport
{
public:
  Link(int p, const std::string& endpoint) : p_(p), endpoint_(endpoint) {}
  PendingResponse request(const std::string& name, const Data& d) override
  {
    std::promise<Data> pr;
    auto f = std::make_shared<std::future<Data>>(pr.get_future());
    if (name != endpoint_) return f;   // nobody there: the promise is broken
    if (mode == "throw") throw communication_error("gone");
    if (mode == "silent") { std::lock_guard<std::mutex> l(m_); kept_.push_back(std::move(pr)); return f; }
    if (mode == "broken") return f;
    if (mode == "error") { pr.set_exception(std::make_exception_ptr(communication_error("gone"))); return f; }
    if (mode == "garbage") { pr.set_value(Data{ 1, 2, 3 }); return f; }
    if (mode == "nothing") { pr.set_value(Data{}); return f; }
    std::string r;
    if (!ask(*procs[p_], "handle " + hex(std::string(d.begin(), d.end())), r) || r == "!") return f;
    const std::string raw = unhex(r);
    pr.set_value(Data(raw.begin(), raw.end()));
    return f;
  }
  std::size_t pendingRequests() const override { return 0; }
  std::string mode{ "ok" };
private:
  int p_;
  std::string endpoint_;
  std::mutex m_;
  std::vector<std::promise<Data>> kept_;
};
class Manager : public EndpointManager
{
public:
  TransportEndpoints endpoints() const override { return eps; }
  void addEndpointFactory(const std::string&, EndpointFactory&&) override {}
  TransportEndpoints eps;
};
static int proc_of(long pid) { for (auto& p : procs) if (p.second->pid == pid) return p.first; return -1; }

static bool spawn(int n, const std::function<void(int, Pipe)>& process)
{
  signal(SIGPIPE, SIG_IGN);
  for (int p = 1; p <= n; p++)
  {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) return false;
    auto P = std::make_unique<Proc>();
    fflush(nullptr);
    P->pid = fork();
    if (P->pid == 0)
    {
      close(a[1]); close(b[0]);
      for (auto& o : procs) { fclose(o.second->c.in); fclose(o.second->c.out); }
      process(p, Pipe{ fdopen(a[0], "r"), fdopen(b[1], "w") });
      _exit(0);
    }
    close(a[0]); close(b[1]);
    P->c = Pipe{ fdopen(b[0], "r"), fdopen(a[1], "w") };
    procs[p] = std::move(P);
  }
  std::string r;
  for (auto& p : procs) ask(*p.second, "seq", r);   // it is up
  return true;
}
static void end_process(int p)
{
  if (!procs[p]->alive) return;
  kill(procs[p]->pid, SIGKILL);
  waitpid(procs[p]->pid, nullptr, 0);
  procs[p]->alive = false;
}
// Lets an endpoint handle a request that came over the pipe.
inline std::string handle_request(Endpoint& ep, const std::string& b)
{
  Null srv;
  const std::string r = unhex(b);
  Data req(r.begin(), r.end()), res;
  try { if (ep.handle(srv, req, res)) return hex(std::string(res.begin(), res.end())); } catch (const std::exception&) {}
  return "!";
}
