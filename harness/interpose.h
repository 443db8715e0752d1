// Perturbs the system calls a transport makes on unix sockets, within what the kernel is allowed to do.
#pragma once
#include <cstdint>
struct IpCfg
{
  uint64_t seed = 1;
  int p_delay = 0;         // per mille chance of a delay before a call
  int max_delay_us = 0;    // its maximum
  int p_short = 0;         // per mille chance that a call transfers only a part
  int p_eintr = 0;         // per mille chance that a call is interrupted before anything happened
  int after_send_us = 0;   // delay after each send
  int after_recv_us = 0;   // delay after each receive
  int p_one = 0;           // per mille chance that a call transfers a single byte
  long die_send = -1;      // die after having sent this many bytes
  long die_recv = -1;      // die after having received this many bytes
  long stall_send = -1;    // never send more than this many bytes (the call blocks)
  int after_close_us = 0;  // delay after each close
};
extern "C" void ip_set(const IpCfg* c);
extern "C" void ip_on_die(void (*f)());
extern "C" long ip_sent();
extern "C" long ip_received();
