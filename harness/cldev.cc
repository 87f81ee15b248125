#include "cldev.hh"
#include <dlfcn.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <sstream>
#if defined(__SANITIZE_THREAD__)
extern "C" { void * __tsan_create_fiber(unsigned); void __tsan_destroy_fiber(void*); void __tsan_switch_to_fiber(void*, unsigned); void * __tsan_get_current_fiber(); }
#endif

using std::string; using std::vector;

namespace cldev {

struct WorkItem { size_t global_id, global_size, local_id, local_size, group, nmb_groups; };
static thread_local WorkItem wi;

struct Item { ucontext_t ctx; WorkItem w; bool done; void * fiber; };
static thread_local ucontext_t scheduler;
static thread_local void * scheduler_fiber;
static thread_local Item * running;
static thread_local const std::function<void()> * body;
static const size_t stack_size = 1 << 16;

static void switch_fiber(void * f)
{
#if defined(__SANITIZE_THREAD__)
  __tsan_switch_to_fiber(f, 0);
#else
  (void)f;
#endif
}

static void back_to_scheduler() { Item * it = running; switch_fiber(scheduler_fiber); swapcontext(&it->ctx, &scheduler); }
static void item_main() { (*body)(); running->done = true; back_to_scheduler(); }

void permute(vector<unsigned> & ix, Order order, uint64_t & seed)
{
  std::iota(ix.begin(), ix.end(), 0);
  if ( order == backwards ) std::reverse(ix.begin(), ix.end());
  if ( order == shuffled ) for ( size_t k=ix.size(); k-->1; ) {
    seed = seed * 6364136223846793005ull + 1442695040888963407ull;
    std::swap(ix[k], ix[(seed >> 33) % (k+1)]);
  }
}

bool run_group(size_t group, size_t nmb_groups, size_t lsz, Order order, uint64_t & seed, const std::function<void()> & f, string & error)
{
  if ( lsz == 1 ) {                      // a barrier is void
    Item * before = running; running = nullptr;
    wi = WorkItem{group, nmb_groups, 0, 1, group, nmb_groups};
    f();
    running = before;
    return true;
  }
  static thread_local vector<std::unique_ptr<Item>> items;
  static thread_local vector<std::unique_ptr<char[]>> stacks;
  while ( stacks.size() < lsz ) stacks.emplace_back(new char[stack_size]);
  while ( items.size() < lsz ) items.emplace_back(new Item);
  body = &f;
#if defined(__SANITIZE_THREAD__)
  scheduler_fiber = __tsan_get_current_fiber();
#endif
  for ( size_t k=0; k<lsz; ++k ) {
    Item & it = *items[k];
    it.w = WorkItem{group*lsz+k, lsz*nmb_groups, k, lsz, group, nmb_groups};
    it.done = false;
    getcontext(&it.ctx);
    it.ctx.uc_stack.ss_sp = stacks[k].get(); it.ctx.uc_stack.ss_size = stack_size; it.ctx.uc_link = nullptr;
    makecontext(&it.ctx, item_main, 0);
#if defined(__SANITIZE_THREAD__)
    it.fiber = __tsan_create_fiber(0);
#endif
  }
  vector<unsigned> ix(lsz);
  bool fine = true;
  for ( unsigned phases = 0; ; ++phases ) {
    permute(ix, order, seed);
    size_t done = 0;
    for ( unsigned k : ix ) {
      Item & it = *items[k];
      running = &it; wi = it.w;
      switch_fiber(it.fiber);
      swapcontext(&scheduler, &it.ctx);
      done += it.done;
    }
    if ( done == lsz ) break;
    std::ostringstream os;
    if ( done ) os << "barrier reached by only some of the work items of a group of size " << lsz;
    else if ( phases > 1000 ) os << "more than 1000 barriers in a group of size " << lsz;
    else continue;
    error = os.str(); fine = false;
    break;
  }
  running = nullptr;
#if defined(__SANITIZE_THREAD__)
  for ( size_t k=0; k<lsz; ++k ) __tsan_destroy_fiber(items[k]->fiber);
#endif
  return fine;
}

void call(const Kernel & k, const vector<long> & a)
{
  switch ( k.nmb_args ) {
    case 1: ((void(*)(long))k.function)(a[0]); break;
    case 2: ((void(*)(long,long))k.function)(a[0],a[1]); break;
    case 3: ((void(*)(long,long,long))k.function)(a[0],a[1],a[2]); break;
    case 4: ((void(*)(long,long,long,long))k.function)(a[0],a[1],a[2],a[3]); break;
    case 5: ((void(*)(long,long,long,long,long))k.function)(a[0],a[1],a[2],a[3],a[4]); break;
    case 6: ((void(*)(long,long,long,long,long,long))k.function)(a[0],a[1],a[2],a[3],a[4],a[5]); break;
    case 7: ((void(*)(long,long,long,long,long,long,long))k.function)(a[0],a[1],a[2],a[3],a[4],a[5],a[6]); break;
    case 8: ((void(*)(long,long,long,long,long,long,long,long))k.function)(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]); break;
    case 9: ((void(*)(long,long,long,long,long,long,long,long,long))k.function)(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]); break;
    case 10: ((void(*)(long,long,long,long,long,long,long,long,long,long))k.function)(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9]); break;
    default: fprintf(stderr, "cldev: kernel with %u arguments\n", k.nmb_args); _exit(3);
  }
}

static bool word_at(const string & t, size_t at, const string & w)
{
  auto letter = [](char c) { return isalnum((unsigned char)c) || c == '_'; };
  return t.compare(at, w.size(), w) == 0 && (at == 0 || !letter(t[at-1])) && (at + w.size() >= t.size() || !letter(t[at+w.size()]));
}
static bool has_word(const string & t, const string & w)
{
  for ( size_t at=0; (at = t.find(w, at)) != string::npos; ++at ) if ( word_at(t, at, w) ) return true;
  return false;
}
static bool is_type(const string & t) { return t == "void"; }

// position of the parenthesis after the names of kernels
static vector<std::pair<string,size_t>> find_kernels(const string & t)
{
  vector<std::pair<string,size_t>> r;
  for ( size_t at=0; (at = t.find("kernel", at)) != string::npos; ++at ) {
    if ( !word_at(t, at, "kernel") && !(at >= 2 && word_at(t, at-2, "__kernel")) ) continue;
    size_t k = t.find('(', at);
    if ( k == string::npos ) break;
    while ( t.compare(k, 2, "((") == 0 ) { k = t.find("))", k); if ( k == string::npos ) return r; k = t.find('(', k); }       // attributes
    size_t e = k; while ( e > 0 && isspace((unsigned char)t[e-1]) ) --e;
    size_t b = e; while ( b > 0 && (isalnum((unsigned char)t[b-1]) || t[b-1] == '_') ) --b;
    string name = t.substr(b, e-b);
    if ( !name.empty() && !is_type(name) ) r.push_back({name, k});
  }
  return r;
}
vector<string> Program::names() const { vector<string> r; for ( auto & x : find_kernels(text) ) r.push_back(x.first); return r; }

bool Program::kernel(const string & name, Kernel & kernel) const
{
  if ( !handle ) return false;
  for ( auto & x : find_kernels(text) ) if ( x.first == name ) {
    kernel.function = (void(*)(...))dlsym(handle, name.c_str());
    if ( !kernel.function ) return false;
    kernel.kinds.clear();
    int depth = 0; string param;
    for ( size_t k=x.second; k<text.size(); ++k ) {
      char c = text[k];
      if ( c == '(' && depth++ == 0 ) continue;
      if ( (c == ')' && --depth == 0) || (c == ',' && depth == 1) ) {
        bool pointer = param.find('*') != string::npos;
        kernel.kinds.push_back(pointer ? (has_word(param,"local") || has_word(param,"__local") ? 'l' : 'g')
            : (has_word(param,"long") || has_word(param,"ulong") ? 'V' : 'v'));
        param.clear();
        if ( c == ')' ) break;
      }
      else param += c;
    }
    kernel.nmb_args = kernel.kinds.size();
    return true;
  }
  return false;
}

static uint64_t fnv(const string & s, uint64_t h) { for ( unsigned char c : s ) { h ^= c; h *= 1099511628211ull; } return h; }

const Program & compile(const string & text, const string & options)
{
  static std::mutex m;
  std::lock_guard<std::mutex> lock(m);
  static std::map<std::pair<string,string>, Program> cache;
  auto it = cache.find({text,options});
  if ( it != cache.end() ) return it->second;
  Program & p = cache[{text,options}];
  p.text = text; p.handle = nullptr;
  const char * flags = "-O1 -g1"
#if defined(__SANITIZE_ADDRESS__)
    " -fsanitize=address"
#endif
    ;
  string dir;
  if ( const char * d = getenv("CLDEV_DIR") ) dir = d;
  else {
    char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n > 0 ? n : 0] = 0; dir = exe; dir = dir.substr(0, dir.rfind('/')) + "/../cl";
  }
  mkdir(dir.c_str(), 0777);
  char key[64];
  snprintf(key, sizeof key, "%016llx%016llx", (unsigned long long)fnv(text+'\n'+options+flags, 14695981039346656037ull),
      (unsigned long long)fnv(string(flags)+options+text, 88172645463325252ull));
  string base = dir + "/" + key, so = base + ".so", tmp = base + "." + std::to_string(getpid());
  if ( access(so.c_str(), R_OK) != 0 ) {
    std::ofstream(tmp + ".cl") << text << "\n";
    // OpenCL C, for the host; the functions of OpenCL C are those below
    string cmd = string("env -u LD_PRELOAD clang -x cl -cl-std=CL1.2 -target x86_64-linux-gnu -Xclang -finclude-default-header -fPIC -w ") + flags + " " + options
        + " -c '" + tmp + ".cl' -o '" + tmp + ".o' 2> '" + tmp + ".log' && env -u LD_PRELOAD gcc -shared -o '" + tmp + ".so' '" + tmp + ".o' 2>> '" + tmp + ".log'";
    int rc = system(cmd.c_str());
    std::ifstream log(tmp + ".log"); std::ostringstream os; os << log.rdbuf(); p.log = os.str();
    if ( rc == 0 ) rename((tmp + ".so").c_str(), so.c_str());
    for ( const char * x : {".cl",".o",".log",".so"} ) unlink((tmp + x).c_str());
    if ( rc != 0 ) return p;
  }
  p.handle = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
  if ( !p.handle ) p.log = dlerror();
  return p;
}

}

// the functions of OpenCL C that a kernel may call, under their names there
using cldev::wi;
#define CLF(type, id, name, ...) extern "C" __attribute__((visibility("default"),used)) type id(__VA_ARGS__) __asm__(name); extern "C" type id(__VA_ARGS__)
CLF(size_t, cl_ggi, "_Z13get_global_idj", unsigned d) { return d ? 0 : wi.global_id; }
CLF(size_t, cl_ggs, "_Z15get_global_sizej", unsigned d) { return d ? 1 : wi.global_size; }
CLF(size_t, cl_ggo, "_Z17get_global_offsetj", unsigned) { return 0; }
CLF(size_t, cl_gli, "_Z12get_local_idj", unsigned d) { return d ? 0 : wi.local_id; }
CLF(size_t, cl_gls, "_Z14get_local_sizej", unsigned d) { return d ? 1 : wi.local_size; }
CLF(size_t, cl_ggri, "_Z12get_group_idj", unsigned d) { return d ? 0 : wi.group; }
CLF(size_t, cl_gng, "_Z14get_num_groupsj", unsigned d) { return d ? 1 : wi.nmb_groups; }
CLF(unsigned, cl_gwd, "_Z12get_work_dimv", void) { return 1; }
CLF(void, cl_bar, "_Z7barrierj", unsigned) { if ( cldev::running ) cldev::back_to_scheduler(); }
CLF(void, cl_mf, "_Z9mem_fencej", unsigned) {}
CLF(void, cl_rmf, "_Z14read_mem_fencej", unsigned) {}
CLF(void, cl_wmf, "_Z15write_mem_fencej", unsigned) {}
CLF(int, cl_mini, "_Z3minii", int a, int b) { return a < b ? a : b; }
CLF(int, cl_maxi, "_Z3maxii", int a, int b) { return a > b ? a : b; }
CLF(unsigned, cl_minu, "_Z3minjj", unsigned a, unsigned b) { return a < b ? a : b; }
CLF(unsigned, cl_maxu, "_Z3maxjj", unsigned a, unsigned b) { return a > b ? a : b; }
CLF(int, cl_clampi, "_Z5clampiii", int x, int a, int b) { return x < a ? a : x > b ? b : x; }
CLF(unsigned, cl_absi, "_Z3absi", int a) { return a < 0 ? -(unsigned)a : a; }
CLF(unsigned, cl_absd, "_Z8abs_diffii", int a, int b) { return a < b ? (unsigned)b-a : (unsigned)a-b; }
CLF(int, cl_mul24, "_Z5mul24ii", int a, int b) { return (int)((unsigned)a*b); }
CLF(int, cl_mad24, "_Z5mad24iii", int a, int b, int c) { return (int)((unsigned)a*b+c); }
CLF(int, cl_seli, "_Z6selectiii", int a, int b, int c) { return c ? b : a; }
CLF(int, cl_selij, "_Z6selectiij", int a, int b, unsigned c) { return c ? b : a; }
CLF(unsigned, cl_selu, "_Z6selectjjj", unsigned a, unsigned b, unsigned c) { return c ? b : a; }
CLF(int, cl_aag, "_Z10atomic_addPU8CLglobalVii", volatile int * p, int v) { return __sync_fetch_and_add(p, v); }
CLF(int, cl_aal, "_Z10atomic_addPU7CLlocalVii", volatile int * p, int v) { return __sync_fetch_and_add(p, v); }
CLF(int, cl_aig, "_Z10atomic_incPU8CLglobalVi", volatile int * p) { return __sync_fetch_and_add(p, 1); }
CLF(int, cl_ail, "_Z10atomic_incPU7CLlocalVi", volatile int * p) { return __sync_fetch_and_add(p, 1); }
