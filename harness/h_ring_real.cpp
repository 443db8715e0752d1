// Two real threads on the real ring buffer, for the thread sanitizer; prints the history in coarse form.
#include <algorithm>
#include <array>
#include <cstdio>
#include <stdexcept>
#include <thread>
#include <vector>
#include "spsc_ringbuffer.h"
int main(int argc, char** argv)
{
  const int cap = atoi(argv[1]);
  const long n = atol(argv[2]);
  const bool bulk = argv[3][0] == 'b';
  scalopus::SPSCRingBuffer<std::vector<std::vector<long>>> ring{ std::vector<std::vector<long>>(cap) };
  std::thread p([&] { for (long i = 1; i <= n;) if (ring.push(std::vector<long>(1 + i % 3, i))) i++; else std::this_thread::yield(); });
  long got = 0, bad = 0;
  while (got < n)
  {
    std::array<std::vector<long>, 8> out;
    size_t k = bulk ? ring.pop_into(out.begin(), 1 + got % 7) : ring.pop(out[0]);
    for (size_t i = 0; i < k; i++) { ++got; if (out[i] != std::vector<long>(1 + got % 3, got)) bad++; }
    if (!k) std::this_thread::yield();
    ring.size(); ring.empty();
    if (bad) break;
  }
  printf("%ld %ld\n", got, bad);
  fflush(stdout);
  if (bad) _Exit(4);
  p.join();
  return 0;
}
