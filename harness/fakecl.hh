// An OpenCL driver whose devices are the host; the moment at which queued commands are executed, the order of the work
// items and failing calls are chosen by the test.
#ifndef FAKECL_HH
#define FAKECL_HH
#include <cstdint>
#include <string>
#include <vector>
namespace fakecl {
struct PlatformSpec { std::string vendor; unsigned gpus, accelerators, cpus; };
struct Setup
{
  std::vector<PlatformSpec> platforms;
  unsigned laziness = 0;            // per cent of the opportunities at which a queue does not execute what it holds
  uint64_t seed = 1;
  long fail_at = -1;                // number of the call that fails, if any
};
void setup(const Setup & s);        // forgets all counters
struct Observed { long calls = 0, failed = 0, launches = 0, delayed = 0, items = 0, local_launches = 0; std::string error, failed_call; };
Observed observed();
}
#endif
