// C22: while blocks are handed out, what has been computed is saved at least every five minutes.
//
// The calendar clock belongs to the test: it stands still but for the jumps of the case.  Pools are run in a child; pools of
// several processes on the stand-in for Boost.MPI.
#include "stores.hh"
#include "worker_pool/standalone.hh"
#include "worker_pool/mpi.hh"
#include "worker_pool/mpi_worker.hh"
#include <boost/filesystem.hpp>
#include <sys/time.h>
namespace fs = boost::filesystem;
namespace mpi = boost::mpi;

static bool own_clock = false;
static int64_t ahead = 0;                              // nanoseconds
static const int64_t start_time = 1700000000;
extern "C" {
int clock_gettime(clockid_t clock, timespec * t)
{
  int rc = syscall(SYS_clock_gettime, clock, t);
  if ( rc || !own_clock ) return rc;
  if ( clock == CLOCK_REALTIME || clock == CLOCK_REALTIME_COARSE ) { t->tv_sec = start_time; t->tv_nsec = 0; }
  t->tv_sec += ahead / 1000000000; t->tv_nsec += ahead % 1000000000;
  if ( t->tv_nsec >= 1000000000 ) { t->tv_nsec -= 1000000000; ++t->tv_sec; }
  return 0;
}
time_t time(time_t * p) { timespec t; clock_gettime(CLOCK_REALTIME, &t); if ( p ) *p = t.tv_sec; return t.tv_sec; }
int gettimeofday(timeval * v, void *) noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec/1000; return 0; }
int nanosleep(const timespec *, timespec *) { timespec t{0,200000}; syscall(SYS_nanosleep, &t, nullptr); return 0; }
}

static string read_file(const fs::path & p)
{
  std::ifstream in(p.native(), std::ios::binary);
  std::stringstream s; s << in.rdbuf(); return s.str();
}

struct Plan
{
  struct Config { FieldShape f; unsigned g; unsigned package; vector<Block> blocks; };
  struct Step { int kind; int64_t seconds; };          // 0: a block; 1: the clock; 2: wait; 3: the next configuration
  vector<Config> configs; vector<Step> steps;
  unsigned threads;
};

static Plan gen_plan(Case & c)
{
  Plan p; unsigned nmb = 1 + c.weighted({4,2,1});
  for ( unsigned k=0; k<nmb; ++k ) {
    auto f = gen_field(c, 12); unsigned g = 1 + c.pick(2), package = 1 + c.pick(8);
    Plan::Config x{f, g, package, {}};
    CurveIterator it(*base(f.p,f.r)->table, g, c.chance(1,4), package);
    for ( ; !it.is_end() && x.blocks.size() < 60; it.step() ) x.blocks.push_back(it.as_block());
    p.configs.push_back(x);
  }
  p.threads = 1 + c.pick(4);
  unsigned n = 2 + c.sized(40);
  static const vector<int64_t> jumps = {301, 299, 300, 1, 60, 150, 600, 3600, 86400, 31*86400, 1};
  for ( unsigned k=0; k<n; ++k )
    switch ( c.weighted({6,4,2,1}) ) {
      case 0: p.steps.push_back({0,0}); break;
      case 1: p.steps.push_back({1, c.of(jumps)}); break;
      case 2: p.steps.push_back({2,0}); break;
      default: p.steps.push_back({3,0}); break;
    }
  c.desc << p.threads << " threads, ";
  for ( auto & x : p.configs ) c.desc << "genus " << x.g << " over F_" << x.f.p << "^" << x.f.r << " in packages of " << x.package << "; ";
  for ( auto & s : p.steps ) { if ( s.kind == 0 ) c.desc << "block "; else if ( s.kind == 1 ) c.desc << s.seconds << "s "; else if ( s.kind == 2 ) c.desc << "wait "; else c.desc << "next "; }
  return p;
}

// what is on record, and how many files there are
static std::pair<Record,unsigned> saved(const fs::path & dir)
{
  Record r; unsigned n = 0;
  if ( fs::is_directory(dir) )
    for ( fs::directory_iterator it(dir), end; it != end; ++it )
      if ( it->path().extension() == ".hycu_record" ) { for ( auto & b : parse_record(read_file(it->path())) ) r.insert(b); ++n; }
  return {r, n};
}

struct Summary { unsigned due = 0, blocks = 0; };

template<class Pool> static Summary drive(const Plan & plan, Pool & pool, const fs::path & root)
{
  Summary sum;
  int64_t now = 0, last = 0;                           // seconds; when something was saved
  int current = -1; size_t next = 0; fs::path dir;
  Record assigned; bool all_finished = true; Record certain;       // certain: finished, whatever the threads do
  auto begin = [&] {
    current = (current + 1) % plan.configs.size();
    auto & x = plan.configs[current];
    static unsigned id = 0;
    dir = root / std::to_string(++id); fs::create_directories(dir);
    ConfigNode n; n.prime = x.f.p; n.prime_exponent = x.f.r; n.genus = x.g; n.with_marked_point = false; n.count_exponent = x.f.l; n.package_size = x.package; n.result_path = dir;
    fs::path old = id > 1 ? root / std::to_string(id-1) : fs::path();
    pool.update_config(n);
    if ( !old.empty() ) {
      auto got = saved(old).first;
      PBT_CHECK(got == assigned, "after the next configuration began, " << got.size() << " blocks of " << assigned.size() << " of the last one are on record");
      last = now;
    }
    assigned.clear(); certain.clear(); next = 0;
  };
  begin();
  for ( auto & s : plan.steps ) {
    if ( s.kind == 1 ) { now += s.seconds; ahead = now * 1000000000; }
    else if ( s.kind == 2 ) { pool.wait_for_assigned_blocks(); certain = assigned; }
    else if ( s.kind == 3 ) begin();
    else {
      auto & x = plan.configs[current];
      if ( next >= x.blocks.size() ) continue;
      unsigned before = saved(dir).second;
      auto block = x.blocks[next++];
      pool.assign(block); ++sum.blocks;
      auto after = saved(dir);
      if ( now > last + 301 ) {
        PBT_CHECK(after.second > before, "a block was handed out " << now - last << " s after the last save, but nothing has been saved");
        for ( auto & b : certain ) PBT_CHECK(after.first.count(b), "a block was handed out " << now - last << " s after the last save, but block " << text(b) << "is not on record, although it had been finished");
        ++sum.due;
      }
      if ( after.second > before ) last = now;
      assigned.insert(block);
    }
  }
  return sum;
}

static void in_child(Case & c, std::function<Summary()> run)
{
  std::cout.flush();
  int fds[2]; if ( pipe(fds) ) throw std::runtime_error("pipe");
  pid_t pid = fork();
  if ( pid == 0 ) {
    alarm(40);
    close(fds[0]);
    string out;
    own_clock = true; ahead = 0;
    try { auto s = run(); out = "ok " + std::to_string(s.due) + " " + std::to_string(s.blocks); }
    catch ( const std::exception & e ) { out = string("no ") + e.what(); }
    if ( write(fds[1], out.data(), out.size()) < 0 ) {}
    _exit(0);
  }
  close(fds[1]);
  string out; char b[4096]; ssize_t n;
  while ( (n = read(fds[0], b, sizeof b)) > 0 ) out.append(b, n);
  close(fds[0]);
  int st; waitpid(pid, &st, 0);
  PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0 && out.size() > 2, "the pool ended with status " << st << " (" << out << ")");
  PBT_CHECK(out.substr(0,3) == "ok ", out.substr(3));
  unsigned due, blocks; std::istringstream is(out.substr(3)); is >> due >> blocks;
  if ( due ) { c.nontrivial(); c.label("saving was due"); }
  if ( due > 2 ) c.label("saving was due three times or more");
}

static fs::path scratch()
{
  char t[] = "c22XXXXXX"; if ( !mkdtemp(t) ) throw std::runtime_error("mkdtemp");
  return fs::absolute(t);
}
struct Dir { fs::path p = scratch(); ~Dir() { boost::system::error_code e; fs::remove_all(p, e); } };

PBT_PROPERTY(standalone, 3)
{
  auto plan = gen_plan(c); Dir d;
  in_child(c, [&] {
    auto pool = make_shared<StandaloneWorkerPool>(create_store_factory(StoreType::EC), plan.threads, 0);
    auto s = drive(plan, *pool, d.p);
    pool.reset();
    return s;
  });
}

PBT_PROPERTY(distributed, 3)
{
  auto plan = gen_plan(c); Dir d;
  unsigned procs = 1 + c.weighted({1,4,3,1}); bool sync = c.chance(1,2);
  plan.threads = 1 + plan.threads % 2;
  c.desc << " on " << procs << " processes" << (sync ? ", sends wait" : "");
  in_child(c, [&] {
    setenv("STUB_N", std::to_string(procs).c_str(), 1); setenv("STUB_SYNC", sync ? "1" : "0", 1);
    auto * env = new mpi::environment(mpi::threading::funneled);
    auto world = make_shared<mpi::communicator>();
    if ( world->rank() != 0 ) { alarm(40); main_mpi_worker(world); _exit(0); }
    Summary s;
    try {
      auto pool = make_shared<MPIWorkerPool>(world, StoreType::EC, (int)plan.threads, 0u);
      s = drive(plan, *pool, d.p);
      pool.reset();
    } catch ( ... ) { for ( auto x : boost::mpi::stub::state().children ) kill(x, SIGKILL); throw; }
    delete env;
    return s;
  });
}
