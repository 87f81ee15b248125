// A device of OpenCL on the host: kernels compiled by clang as OpenCL C, work items of a group as coroutines.
#ifndef CLDEV_HH
#define CLDEV_HH
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace cldev {

enum Order { forwards, backwards, shuffled };

struct Kernel
{
  void (*function)(...);
  unsigned nmb_args;
  std::vector<char> kinds;          // g: global buffer, l: local memory, v: value of 4 bytes, V: value of 8 bytes
};
struct Program
{
  void * handle; std::string text, log;
  bool kernel(const std::string & name, Kernel & k) const;      // false: no such kernel
  std::vector<std::string> names() const;
};
const Program & compile(const std::string & text, const std::string & options);     // handle is null if it could not be compiled

// runs all work items of one group; false: a barrier that only some of them reach; body runs one work item
bool run_group(size_t group, size_t nmb_groups, size_t local_size, Order order, uint64_t & seed, const std::function<void()> & body, std::string & error);
void permute(std::vector<unsigned> & ix, Order order, uint64_t & seed);
void call(const Kernel & k, const std::vector<long> & args);

}
#endif
