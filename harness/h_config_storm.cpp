// Threads that come and go and configure themselves while others configure them remotely; for the thread sanitizer.
#include <pthread.h>
#include <scalopus_interface/transport.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/trace_configurator.h>
#include <scalopus_tracing/tracing.h>
#include <unistd.h>
#include <cstdio>
#include <thread>
using namespace scalopus;
class Wire : public Transport
{
public:
  EndpointTraceConfigurator server;
  PendingResponse request(const std::string&, const Data& d) override
  {
    std::promise<Data> p;
    auto f = std::make_shared<std::future<Data>>(p.get_future());
    Data r;
    server.handle(*this, d, r);
    p.set_value(r);
    return f;
  }
  std::size_t pendingRequests() const override { return 0; }
};
int main(int argc, char** argv)
{
  alarm(120);
  const int n = atoi(argv[1]);
  std::atomic<bool> stop{ false };
  std::atomic<long> wrong{ 0 }, done{ 0 };
  std::vector<std::thread> all;
  for (int r = 0; r < 2; r++)
    all.emplace_back([&] {
      auto wire = std::make_shared<Wire>();
      auto client = EndpointTraceConfigurator::factory(wire);
      while (!stop)
      {
        auto s = client->getTraceState();
        if (!s.cmd_success) wrong++;
        for (auto& kv : s.thread_state) kv.second = !kv.second;
        s.set_process_state = true;
        s.process_state = !s.process_state;
        auto q = client->setTraceState(s);
        if (!q.cmd_success) wrong++;
        done++;
      }
    });
  std::vector<std::thread> makers;
  for (int k = 0; k < 3; k++)
    makers.emplace_back([&] {
      for (int i = 0; i < n; i++)
        std::thread([&] {
          auto c = TraceConfigurator::getInstance();
          c->getThreadState();
          { TRACING_CONFIG_THREAD_STATE_RAII(false); TRACING_CONFIG_PROCESS_STATE_RAII(true); c->setThreadState(true); }
          c->getProcessState();
        }).join();
    });
  for (auto& m : makers) m.join();
  stop = true;
  for (auto& t : all) t.join();
  const auto left = TraceConfigurator::getInstance()->getThreadMap().size();
  printf("%ld %ld %zu\n", done.load(), wrong.load(), left);
  return wrong || left ? 1 : 0;
}
