#include "fakecl.hh"
#include "cldev.hh"
#define CL_TARGET_OPENCL_VERSION 120
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#include <CL/cl.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <sstream>

using std::string; using std::vector;

struct Counted { std::atomic<int> refs{1}; virtual ~Counted() {} };
template<class T> static cl_int retain(T * x) { if ( !x ) return CL_INVALID_VALUE; ++x->refs; return CL_SUCCESS; }
template<class T> static cl_int release(T * x) { if ( !x ) return CL_INVALID_VALUE; if ( --x->refs == 0 ) delete x; return CL_SUCCESS; }

struct _cl_device_id { cl_platform_id platform; cl_device_type type; };
struct _cl_platform_id { fakecl::PlatformSpec spec; std::deque<_cl_device_id> devices; };
struct _cl_context : Counted { cl_device_id device; };
struct _cl_mem : Counted
{
  cl_context context; char * data; size_t size; cl_mem_flags flags;
  ~_cl_mem() { free(data); release(context); }
};
struct _cl_program : Counted { cl_context context; string text, options, log; const cldev::Program * program = nullptr; ~_cl_program() { release(context); } };
struct Arg { bool set = false; cl_mem mem = nullptr; vector<char> value; size_t local = 0; };
struct _cl_kernel : Counted
{
  cl_program program; cldev::Kernel kernel; vector<Arg> args; string name;
  ~_cl_kernel() { for ( auto & a : args ) if ( a.mem ) release(a.mem); release(program); }
};
struct _cl_command_queue : Counted
{
  cl_context context; std::deque<std::function<void()>> pending; uint64_t seed;
  std::recursive_mutex mutex;                // queues may be used by several threads
  void run_all() { std::lock_guard<std::recursive_mutex> l(mutex); while ( !pending.empty() ) { auto f = std::move(pending.front()); pending.pop_front(); f(); } }
  ~_cl_command_queue() { run_all(); release(context); }
};

namespace {
fakecl::Setup the_setup;
std::deque<_cl_platform_id> platforms;
bool ready = false;
std::recursive_mutex mutex;
fakecl::Observed seen;
std::atomic<long> calls, failed, launches, delayed, items, local_launches;
uint64_t queues;

void note(const string & e) { std::lock_guard<std::recursive_mutex> l(mutex); if ( seen.error.empty() ) seen.error = e; fprintf(stderr, "fakecl: %s\n", e.c_str()); }

void from_environment()
{
  // FAKECL=vendor:gpus:accelerators:cpus,... FAKECL_LAZY, FAKECL_SEED, FAKECL_FAIL
  fakecl::Setup s;
  if ( const char * e = getenv("FAKECL") ) {
    std::istringstream is(e); string part;
    while ( std::getline(is, part, ',') ) {
      fakecl::PlatformSpec p; std::istringstream ps(part); string x;
      std::getline(ps, p.vendor, ':');
      unsigned * to[] = {&p.gpus, &p.accelerators, &p.cpus};
      for ( auto t : to ) { *t = 0; if ( std::getline(ps, x, ':') ) *t = atoi(x.c_str()); }
      s.platforms.push_back(p);
    }
  }
  if ( const char * e = getenv("FAKECL_LAZY") ) s.laziness = atoi(e);
  if ( const char * e = getenv("FAKECL_SEED") ) s.seed = atoll(e);
  if ( const char * e = getenv("FAKECL_FAIL") ) s.fail_at = atol(e);
  fakecl::setup(s);
}
void prepare() { std::lock_guard<std::recursive_mutex> l(mutex); if ( !ready ) from_environment(); }
bool fails(const char * call)
{
  prepare();
  long k = calls++;
  if ( the_setup.fail_at >= 0 && k == the_setup.fail_at ) { ++failed; std::lock_guard<std::recursive_mutex> l(mutex); seen.failed_call = call; return true; }
  return false;
}
uint64_t next(uint64_t & s) { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 33; }
template<class T> T fail_with(cl_int * err, cl_int code) { if ( err ) *err = code; return nullptr; }

cl_int enqueue(cl_command_queue q, bool blocking, std::function<void()> f)
{
  std::lock_guard<std::recursive_mutex> l(q->mutex);
  q->pending.push_back(std::move(f));
  if ( blocking ) { q->run_all(); return CL_SUCCESS; }
  // the device may execute any part of what has been queued
  while ( !q->pending.empty() && next(q->seed) % 100 >= the_setup.laziness ) { auto g = std::move(q->pending.front()); q->pending.pop_front(); g(); }
  if ( !q->pending.empty() ) ++delayed;
  return CL_SUCCESS;
}
}

namespace fakecl {
void setup(const Setup & s)
{
  std::lock_guard<std::recursive_mutex> l(mutex);
  the_setup = s; ready = true; seen = Observed(); queues = 0;
  calls = failed = launches = delayed = items = local_launches = 0;
  platforms.clear();
  for ( auto & p : s.platforms ) {
    platforms.emplace_back();
    auto & x = platforms.back(); x.spec = p;
    for ( unsigned k=0; k<p.gpus; ++k ) x.devices.push_back({&x, CL_DEVICE_TYPE_GPU});
    for ( unsigned k=0; k<p.accelerators; ++k ) x.devices.push_back({&x, CL_DEVICE_TYPE_ACCELERATOR});
    for ( unsigned k=0; k<p.cpus; ++k ) x.devices.push_back({&x, CL_DEVICE_TYPE_CPU});
  }
}
Observed observed()
{
  std::lock_guard<std::recursive_mutex> l(mutex);
  Observed o = seen;
  o.calls = calls; o.failed = failed; o.launches = launches; o.delayed = delayed; o.items = items; o.local_launches = local_launches;
  return o;
}
}

extern "C" {

cl_int clGetPlatformIDs(cl_uint n, cl_platform_id * ids, cl_uint * nmb)
{
  prepare();
  if ( platforms.empty() ) { if ( nmb ) *nmb = 0; return -1001; }
  if ( nmb ) *nmb = platforms.size();
  for ( cl_uint k=0; ids && k<n && k<platforms.size(); ++k ) ids[k] = &platforms[k];
  return CL_SUCCESS;
}
static cl_int answer(const void * data, size_t size, size_t room, void * to, size_t * size_ret)
{
  if ( to ) { if ( room < size ) return CL_INVALID_VALUE; memcpy(to, data, size); }
  if ( size_ret ) *size_ret = size;
  return CL_SUCCESS;
}
cl_int clGetPlatformInfo(cl_platform_id p, cl_platform_info what, size_t room, void * to, size_t * size)
{
  if ( !p ) return CL_INVALID_PLATFORM;
  string s = what == CL_PLATFORM_VENDOR ? p->spec.vendor : what == CL_PLATFORM_VERSION ? "OpenCL 1.2 " : "fakecl";
  return answer(s.c_str(), s.size()+1, room, to, size);
}
cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type type, cl_uint n, cl_device_id * ids, cl_uint * nmb)
{
  if ( !p ) return CL_INVALID_PLATFORM;
  vector<cl_device_id> ds;
  for ( auto & d : p->devices ) if ( d.type & type ) ds.push_back(&d);
  if ( ds.empty() ) return CL_DEVICE_NOT_FOUND;
  if ( nmb ) *nmb = ds.size();
  for ( cl_uint k=0; ids && k<n && k<ds.size(); ++k ) ids[k] = ds[k];
  return CL_SUCCESS;
}
cl_int clGetDeviceInfo(cl_device_id d, cl_device_info what, size_t room, void * to, size_t * size)
{
  if ( !d ) return CL_INVALID_DEVICE;
  if ( what == CL_DEVICE_TYPE ) return answer(&d->type, sizeof d->type, room, to, size);
  if ( what == CL_DEVICE_PLATFORM ) return answer(&d->platform, sizeof d->platform, room, to, size);
  if ( what == CL_DEVICE_MAX_WORK_GROUP_SIZE ) { size_t k = 1024; return answer(&k, sizeof k, room, to, size); }
  if ( what == CL_DEVICE_MAX_COMPUTE_UNITS ) { cl_uint k = 8; return answer(&k, sizeof k, room, to, size); }
  string s = what == CL_DEVICE_VERSION ? "OpenCL 1.2 " : "fakecl";
  return answer(s.c_str(), s.size()+1, room, to, size);
}
cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; }
cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }

cl_context clCreateContext(const cl_context_properties *, cl_uint n, const cl_device_id * ds, void (*)(const char*, const void*, size_t, void*), void *, cl_int * err)
{
  if ( fails("clCreateContext") ) return fail_with<cl_context>(err, CL_OUT_OF_HOST_MEMORY);
  if ( n != 1 || !ds || !ds[0] ) return fail_with<cl_context>(err, CL_INVALID_DEVICE);
  auto c = new _cl_context; c->device = ds[0];
  if ( err ) *err = CL_SUCCESS;
  return c;
}
cl_int clRetainContext(cl_context c) { return retain(c); }
cl_int clReleaseContext(cl_context c) { return release(c); }
cl_int clGetContextInfo(cl_context c, cl_context_info what, size_t room, void * to, size_t * size)
{
  if ( !c ) return CL_INVALID_CONTEXT;
  if ( what == CL_CONTEXT_DEVICES ) return answer(&c->device, sizeof c->device, room, to, size);
  cl_uint one = 1;
  return answer(&one, sizeof one, room, to, size);
}

cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties p, cl_int * err)
{
  if ( fails("clCreateCommandQueue") ) return fail_with<cl_command_queue>(err, CL_OUT_OF_RESOURCES);
  if ( !c ) return fail_with<cl_command_queue>(err, CL_INVALID_CONTEXT);
  if ( d != c->device ) return fail_with<cl_command_queue>(err, CL_INVALID_DEVICE);
  if ( p & CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE ) return fail_with<cl_command_queue>(err, CL_INVALID_QUEUE_PROPERTIES);
  auto q = new _cl_command_queue; q->context = c; retain(c);
  { std::lock_guard<std::recursive_mutex> l(mutex); q->seed = the_setup.seed + 7919 * ++queues; }
  if ( err ) *err = CL_SUCCESS;
  return q;
}
cl_int clRetainCommandQueue(cl_command_queue q) { return retain(q); }
cl_int clReleaseCommandQueue(cl_command_queue q) { return release(q); }

cl_mem clCreateBuffer(cl_context c, cl_mem_flags flags, size_t size, void * host, cl_int * err)
{
  if ( fails("clCreateBuffer") ) return fail_with<cl_mem>(err, CL_MEM_OBJECT_ALLOCATION_FAILURE);
  if ( !c ) return fail_with<cl_mem>(err, CL_INVALID_CONTEXT);
  if ( size == 0 ) return fail_with<cl_mem>(err, CL_INVALID_BUFFER_SIZE);
  bool copy = flags & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR);
  if ( copy != (host != nullptr) ) return fail_with<cl_mem>(err, CL_INVALID_HOST_PTR);
  auto m = new _cl_mem; m->context = c; retain(c);
  m->data = (char*)malloc(size); m->size = size; m->flags = flags;
  if ( copy ) memcpy(m->data, host, size); else memset(m->data, 0x5a, size);
  if ( err ) *err = CL_SUCCESS;
  return m;
}
cl_int clRetainMemObject(cl_mem m) { return retain(m); }
cl_int clReleaseMemObject(cl_mem m) { return release(m); }

cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char ** texts, const size_t * lengths, cl_int * err)
{
  if ( fails("clCreateProgramWithSource") ) return fail_with<cl_program>(err, CL_OUT_OF_HOST_MEMORY);
  if ( !c ) return fail_with<cl_program>(err, CL_INVALID_CONTEXT);
  if ( !n || !texts ) return fail_with<cl_program>(err, CL_INVALID_VALUE);
  auto p = new _cl_program; p->context = c; retain(c);
  for ( cl_uint k=0; k<n; ++k ) p->text += lengths && lengths[k] ? string(texts[k], lengths[k]) : string(texts[k]);
  if ( err ) *err = CL_SUCCESS;
  return p;
}
cl_int clBuildProgram(cl_program p, cl_uint, const cl_device_id *, const char * options, void (*)(cl_program, void*), void *)
{
  if ( fails("clBuildProgram") ) return CL_OUT_OF_RESOURCES;
  if ( !p ) return CL_INVALID_PROGRAM;
  p->options = options ? options : "";
  p->program = &cldev::compile(p->text, p->options);
  if ( p->program->handle ) return CL_SUCCESS;
  p->log = p->program->log;
  note("a program can not be built: " + p->log.substr(0,1500));
  return CL_BUILD_PROGRAM_FAILURE;
}
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info what, size_t room, void * to, size_t * size)
{
  if ( !p ) return CL_INVALID_PROGRAM;
  if ( what == CL_PROGRAM_BUILD_STATUS ) { cl_build_status s = p->program && p->program->handle ? CL_BUILD_SUCCESS : CL_BUILD_ERROR; return answer(&s, sizeof s, room, to, size); }
  return answer(p->log.c_str(), p->log.size()+1, room, to, size);
}
cl_int clRetainProgram(cl_program p) { return retain(p); }
cl_int clReleaseProgram(cl_program p) { return release(p); }

cl_kernel clCreateKernel(cl_program p, const char * name, cl_int * err)
{
  if ( fails("clCreateKernel") ) return fail_with<cl_kernel>(err, CL_OUT_OF_RESOURCES);
  if ( !p ) return fail_with<cl_kernel>(err, CL_INVALID_PROGRAM);
  if ( !p->program || !p->program->handle ) return fail_with<cl_kernel>(err, CL_INVALID_PROGRAM_EXECUTABLE);
  cldev::Kernel kernel;
  if ( !p->program->kernel(name, kernel) ) return fail_with<cl_kernel>(err, CL_INVALID_KERNEL_NAME);
  auto k = new _cl_kernel; k->program = p; retain(p); k->kernel = kernel; k->args.resize(kernel.nmb_args); k->name = name;
  if ( err ) *err = CL_SUCCESS;
  return k;
}
cl_int clRetainKernel(cl_kernel k) { return retain(k); }
cl_int clReleaseKernel(cl_kernel k) { return release(k); }
cl_int clSetKernelArg(cl_kernel k, cl_uint ix, size_t size, const void * value)
{
  if ( fails("clSetKernelArg") ) return CL_OUT_OF_HOST_MEMORY;
  if ( !k ) return CL_INVALID_KERNEL;
  if ( ix >= k->args.size() ) return CL_INVALID_ARG_INDEX;
  auto & a = k->args[ix];
  switch ( k->kernel.kinds[ix] ) {
    case 'l':
      if ( value ) return CL_INVALID_ARG_VALUE;
      if ( !size ) return CL_INVALID_ARG_SIZE;
      a.local = size; break;
    case 'g': {
      if ( size != sizeof(cl_mem) ) return CL_INVALID_ARG_SIZE;
      cl_mem m = value ? *(cl_mem*)value : nullptr;
      if ( m ) retain(m);
      if ( a.mem ) release(a.mem);
      a.mem = m; break;
    }
    default:
      if ( !value ) return CL_INVALID_ARG_VALUE;
      if ( size != (k->kernel.kinds[ix] == 'V' ? 8u : 4u) ) return CL_INVALID_ARG_SIZE;
      a.value.assign((const char*)value, (const char*)value + size);
  }
  a.set = true;
  return CL_SUCCESS;
}

cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool blocking, size_t offset, size_t size, const void * from, cl_uint, const cl_event *, cl_event *)
{
  if ( fails("clEnqueueWriteBuffer") ) return CL_OUT_OF_RESOURCES;
  if ( !q ) return CL_INVALID_COMMAND_QUEUE;
  if ( !m ) return CL_INVALID_MEM_OBJECT;
  if ( m->context != q->context ) return CL_INVALID_CONTEXT;
  if ( !from || size == 0 || offset + size > m->size ) return CL_INVALID_VALUE;
  retain(m);
  return enqueue(q, blocking, [=]() { memcpy(m->data + offset, from, size); release(m); });
}
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool blocking, size_t offset, size_t size, void * to, cl_uint, const cl_event *, cl_event *)
{
  if ( fails("clEnqueueReadBuffer") ) return CL_OUT_OF_RESOURCES;
  if ( !q ) return CL_INVALID_COMMAND_QUEUE;
  if ( !m ) return CL_INVALID_MEM_OBJECT;
  if ( m->context != q->context ) return CL_INVALID_CONTEXT;
  if ( !to || size == 0 || offset + size > m->size ) return CL_INVALID_VALUE;
  retain(m);
  return enqueue(q, blocking, [=]() { memcpy(to, m->data + offset, size); release(m); });
}
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t * offset, const size_t * global, const size_t * local, cl_uint, const cl_event *, cl_event *)
{
  if ( fails("clEnqueueNDRangeKernel") ) return CL_OUT_OF_RESOURCES;
  if ( !q ) return CL_INVALID_COMMAND_QUEUE;
  if ( !k ) return CL_INVALID_KERNEL;
  if ( k->program->context != q->context ) return CL_INVALID_CONTEXT;
  if ( dim != 1 ) return CL_INVALID_WORK_DIMENSION;
  if ( !global || !global[0] ) return CL_INVALID_GLOBAL_WORK_SIZE;
  if ( offset && offset[0] ) return CL_INVALID_GLOBAL_OFFSET;
  std::lock_guard<std::recursive_mutex> lock(q->mutex);
  size_t n = global[0], l = local ? local[0] : 0;
  if ( local && (!l || l > 1024) ) return CL_INVALID_WORK_GROUP_SIZE;
  if ( local && n % l ) return CL_INVALID_WORK_GROUP_SIZE;
  for ( auto & a : k->args ) if ( !a.set ) return CL_INVALID_KERNEL_ARGS;
  if ( !l ) { l = 1; for ( size_t d : {2,4,8,3,5} ) if ( n % (l*d) == 0 && next(q->seed) % 4 == 0 ) l *= d; }
  else ++local_launches;
  auto args = std::make_shared<vector<Arg>>(k->args);      // the values at this moment
  for ( auto & a : *args ) if ( a.mem ) retain(a.mem);
  retain(k);
  ++launches;
  return enqueue(q, false, [=]() {
    vector<long> v(args->size()); vector<std::unique_ptr<char[]>> scratch;
    vector<std::pair<cl_mem,vector<char>>> constants;
    for ( size_t j=0; j<v.size(); ++j ) {
      auto & a = (*args)[j];
      switch ( k->kernel.kinds[j] ) {
        case 'l': scratch.emplace_back(new char[a.local]); memset(scratch.back().get(), 0x77, a.local); v[j] = (long)scratch.back().get(); break;
        case 'g': v[j] = (long)(a.mem ? a.mem->data : nullptr);
                  if ( a.mem && (a.mem->flags & CL_MEM_READ_ONLY) ) constants.push_back({a.mem, vector<char>(a.mem->data, a.mem->data + a.mem->size)});
                  break;
        case 'v': { int x; memcpy(&x, a.value.data(), 4); v[j] = x; break; }
        default: memcpy(&v[j], a.value.data(), 8);
      }
    }
    std::function<void()> body = [&]() { cldev::call(k->kernel, v); };
    vector<unsigned> groups(n/l);
    uint64_t seed = q->seed;
    cldev::Order order = (cldev::Order)(next(q->seed) % 3);
    cldev::permute(groups, order, seed);
    string error;
    for ( unsigned g : groups ) {
      for ( auto & s : scratch ) s[0] ^= 0x11;
      if ( !cldev::run_group(g, n/l, l, order, seed, body, error) ) { note(error); break; }
    }
    items += n;
    for ( auto & x : constants ) if ( memcmp(x.first->data, x.second.data(), x.second.size()) ) note("kernel " + k->name + " writes into a buffer that is read only");
    for ( auto & a : *args ) if ( a.mem ) release(a.mem);
    release(k);
  });
}
cl_int clFlush(cl_command_queue q) { return q ? CL_SUCCESS : CL_INVALID_COMMAND_QUEUE; }
cl_int clFinish(cl_command_queue q)
{
  if ( fails("clFinish") ) return CL_OUT_OF_RESOURCES;
  if ( !q ) return CL_INVALID_COMMAND_QUEUE;
  q->run_all();
  return CL_SUCCESS;
}
cl_int clReleaseEvent(cl_event) { return CL_SUCCESS; }
cl_int clRetainEvent(cl_event) { return CL_SUCCESS; }
cl_int clWaitForEvents(cl_uint, const cl_event *) { return CL_SUCCESS; }
}
