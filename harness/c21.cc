// C21: repeating an operation leaves no more memory, open files or threads behind than doing it a few times.
#include "stores.hh"
#include "worker_pool/standalone.hh"
#include "worker_pool/mpi.hh"
#include "worker_pool/mpi_worker.hh"
#include <sys/mman.h>
#include <sys/wait.h>
#include <csignal>
#include <atomic>
#include <dirent.h>
#include <malloc.h>
#include <thread>
#include <boost/filesystem.hpp>
#include <yaml-cpp/yaml.h>
namespace fs = boost::filesystem;

// every block of memory, whoever asks for it
extern "C" {
void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t); void * __libc_memalign(size_t, size_t);
}
static std::atomic<long> live_blocks, live_bytes;
static inline void * born(void * p) { if ( p ) { ++live_blocks; live_bytes += malloc_usable_size(p); } return p; }
static inline void dies(void * p) { if ( p ) { --live_blocks; live_bytes -= malloc_usable_size(p); } }
extern "C" {
void * malloc(size_t n) { return born(__libc_malloc(n)); }
void free(void * p) { int e = errno; dies(p); __libc_free(p); errno = e; }
void * calloc(size_t n, size_t m) { return born(__libc_calloc(n,m)); }
void * realloc(void * p, size_t n) { dies(p); void * q = __libc_realloc(p,n); if ( !q && n ) born(p); return born(q); }
void * memalign(size_t a, size_t n) { return born(__libc_memalign(a,n)); }
void * aligned_alloc(size_t a, size_t n) { return born(__libc_memalign(a,n)); }
int posix_memalign(void ** p, size_t a, size_t n) { void * q = __libc_memalign(a,n); if ( !q ) return ENOMEM; *p = born(q); return 0; }
// pools look after their threads at intervals of half a second
int nanosleep(const timespec *, timespec *) { timespec t{0,200000}; return clock_nanosleep(CLOCK_MONOTONIC, 0, &t, nullptr); }
}

static unsigned entries(const char * dir)
{
  unsigned n = 0; DIR * d = opendir(dir);
  while ( readdir(d) ) ++n;
  closedir(d); return n;
}
struct Use { long blocks, bytes, files, threads; };
static Use use() { return {live_blocks, live_bytes, (long)entries("/proc/self/fd"), (long)entries("/proc/self/task")}; }

// after a repetitions, b repetitions, ...: something which is left behind by every repetition grows in every interval, at
// least by one (noise: where threads are still busy) for each repetition; what is kept once, or up to a bound, does not
static void repeat(Case & c, const string & what, const vector<unsigned> & counts, std::function<void()> op, long noise = 1, std::function<Use()> use = ::use)
{
  vector<Use> at; at.reserve(counts.size()); unsigned done = 0;
  for ( unsigned n : counts ) { for ( ; done<n; ++done ) op(); at.push_back(use()); }
  auto grows = [&](long Use::* x, long by = 1) {
    for ( size_t k=1; k<counts.size(); ++k ) if ( at[k].*x - at[k-1].*x < by * (long)(counts[k] - counts[k-1]) ) return false;
    return true;
  };
  auto tell = [&](long Use::* x) { vector<long> v; for ( auto & u : at ) v.push_back(u.*x); return str(v); };
  PBT_CHECK(!grows(&Use::bytes, noise) && (noise > 1 || !grows(&Use::blocks)), what << " leaves memory behind: after " << str(counts) << " repetitions "
            << tell(&Use::bytes) << " bytes in " << tell(&Use::blocks) << " blocks are in use");
  PBT_CHECK(!grows(&Use::files), what << " leaves files open: after " << str(counts) << " repetitions " << tell(&Use::files) << " are open");
  PBT_CHECK(!grows(&Use::threads), what << " leaves threads behind: after " << str(counts) << " repetitions there are " << tell(&Use::threads));
  c.label("repeated");
}
static const vector<unsigned> often = {4,16,48}, seldom = {2,8,32};

static fs::path scratch()
{
  static fs::path p;
  if ( p.empty() || !fs::exists(p) ) {
    char t[] = "c21XXXXXX"; if ( !mkdtemp(t) ) throw std::runtime_error("mkdtemp");
    p = fs::absolute(t);
  }
  return p;
}

PBT_PROPERTY(curves, 10)
{
  auto s = gen_field(c, 3000);
  auto b = base(s.p, s.r);
  unsigned degree = gen_degree(c, 12);
  auto e = gen_exponents(c, s.q, degree);
  vector<unsigned> ops; unsigned n = 1 + c.pick(3);
  for ( unsigned k=0; k<n; ++k ) ops.push_back(c.pick(10));
  bool conway = s.p <= conway_limit && s.Q < 2000;
  vector<shared_ptr<ReductionTable>> tables;
  for ( unsigned l=1; l<=s.l; ++l ) tables.push_back(reduction(s.p, s.r*l));
  bool squarefree = Curve(b->table, e).has_squarefree_rhs();
  bool naive = false;
  c.desc << show(s,e) << " operations " << str(ops);
  auto op = [&] {
    Curve curve(b->table, e);
    for ( unsigned o : ops ) switch ( o ) {
      case 0: curve.has_squarefree_rhs(); break;
      case 1: for ( auto & t : tables ) curve.count(t); break;
      case 2: if ( conway ) curve.count_naive_nmod(s.r*s.l), naive = true; break;
      case 3: if ( conway ) curve.count_naive_zech(s.r*s.l), naive = true; break;
      case 4: if ( squarefree ) curve.ramification_type(); break;
      case 5: { for ( auto & t : tables ) curve.count(t); if ( squarefree ) curve.ramification_type(); curve.hasse_weil_offsets(s.r*s.l); curve.number_of_points(s.r*s.l); break; }
      case 6: { std::ostringstream os; os << curve; break; }
      case 7: if ( s.r == 1 ) { auto p = curve.rhs_nmod_polynomial(); nmod_poly_clear(&p); } break;
      case 8: { Curve copy(curve); copy.convert_poly_coeff_exponents(*tables.back()); copy.rhs_support(); break; }
      default: { auto f = create_store_factory(StoreType::EC); auto st = f->create(); for ( auto & t : tables ) curve.count(t); if ( squarefree ) st->register_curve(curve); break; }
    }
  };
  repeat(c, "working with one curve", often, op);
  if ( naive ) c.label("naive count");
  c.nontrivial();
}

PBT_PROPERTY(tables, 4)
{
  auto s = gen_field(c, c.chance(1,3) ? 3000 : 200);
  unsigned kind = c.pick(3);
  c.desc << "tables " << kind << " of F_" << s.p << "^" << s.r << " and exponent " << s.r*s.l;
  vector<unsigned> e = gen_exponents(c, s.q, 5);
  repeat(c, kind == 0 ? "making an element table" : kind == 1 ? "making a reduction table" : "making tables for a curve", often, [&] {
    if ( kind == 0 ) { FqElementTable t(s.p, s.r); t.zero_index(); }
    else if ( kind == 1 ) ReductionTable(s.p, s.r*s.l);
    else {
      auto t = make_shared<FqElementTable>(s.p, s.r);
      Curve curve(t, e);
      curve.count(make_shared<ReductionTable>(s.p, s.r));
    }
  });
  c.nontrivial(c.desc.str());
}

static BlockIterator gen_iterator(Case & c)
{
  size_t n = 1 + c.pick(4);
  map<size_t,tuple<unsigned,unsigned>> blocks; map<size_t,vector<unsigned>> sets;
  for ( size_t k=0; k<n; ++k )
    if ( k == 0 || c.chance(2,3) ) { unsigned lo = c.pick(5); blocks[k] = std::make_tuple(lo, lo + 1 + c.pick(5)); }
    else { vector<unsigned> v; unsigned m = 1 + c.pick(4); for ( unsigned j=0; j<m; ++j ) v.push_back(3*j + c.pick(3)); sets[k] = v; }
  return BlockIterator(n, blocks, 1 + c.pick(4), sets);
}

PBT_PROPERTY(iterators, 4)
{
  bool curve_iterator = c.chance(1,2);
  if ( curve_iterator ) {
    auto s = gen_field(c, 30); unsigned g = 1 + c.pick(2);
    auto t = base(s.p, s.r)->table; unsigned package = 1 + c.magnitude(10);
    c.desc << "curves of genus " << g << " over F_" << s.p << "^" << s.r << " in packages of " << package;
    if ( c.chance(1,2) )
      repeat(c, "listing blocks of curves", often, [&] { CurveIterator it(*t, g, false, package); for ( unsigned k=0; k<20 && !it.is_end(); ++k, it.step() ) it.as_block(); });
    else {          // one listing, continued
      auto it = make_shared<CurveIterator>(*t, g, false, package);
      repeat(c, "continuing a listing of curves", often, [&] { for ( unsigned k=0; k<20; ++k ) { if ( it->is_end() ) it = make_shared<CurveIterator>(*t, g, false, package); it->as_block(); it->as_position(); it->step(); } }, 100);
    }
  } else {
    auto it = gen_iterator(c);
    repeat(c, "iterating over blocks", often, [&] {
      BlockIterator outer(it);
      for ( unsigned k=0; k<30 && !outer.is_end(); outer.step(), ++k ) {
        auto block = outer.as_block(); outer.as_position();
        BlockIterator inner(block);
        for ( unsigned j=0; j<20 && !inner.is_end(); inner.step(), ++j ) inner.as_position();
        auto other = outer.as_block_enumerator(); other.step();
      }
    });
  }
  c.nontrivial();
}

PBT_PROPERTY(configurations, 2)
{
  fs::path dir = scratch() / "cfg";
  std::ostringstream os; bool bad = c.chance(1,4);
  os << "Prime: " << (bad ? 4 : 3 + 2*c.pick(3)) << "\nPrimeExponent: " << 1 + c.pick(3) << "\nGenus: " << 1 + c.pick(3) << "\nCountExponent: " << 1 + c.pick(3);
  if ( c.chance(1,2) ) os << "\nPackageSize: " << 1 + c.pick(1000);
  if ( c.chance(1,3) ) os << "\nWithMarkedPoint: true";
  os << "\nResultPath: " << (dir / "r").native() << "\n";
  c.desc << os.str();
  unsigned refused = 0;
  repeat(c, "reading a configuration", often, [&] {
    auto node = YAML::Load(os.str());
    try {
      auto n = node.as<ConfigNode>(); n.prepend_output_path(dir); n.verify();
      std::ostringstream out; out << n;
    } catch ( const YAML::Exception & ) { ++refused; }
  });
  if ( refused ) c.label("configuration refused");
  c.nontrivial();
}

PBT_PROPERTY(texts, 5)
{
  auto factory = create_store_factory(StoreType::EC);
  std::ostringstream lines; unsigned n = 1 + c.sized(30);
  vector<Key> keys; Record record;
  for ( unsigned k=0; k<n; ++k ) { Key key = gen_key(c); lines << str(key.first) << ";" << str(key.second) << ":" << gen_count(c) << "\n"; record.insert(gen_block(c)); }
  unsigned kind = c.pick(3);
  c.desc << kind << " " << lines.str();
  std::ostringstream rec; FileStore::insert(rec, record);
  auto owner = factory->create(); owner->flush_static_store();
  repeat(c, kind == 0 ? "reading and writing results" : kind == 1 ? "reading and writing records" : "taking out shared results", often, [&] {
    if ( kind == 0 ) {
      auto s = factory->create(); s->extract(std::stringstream(lines.str())); s->extract(std::stringstream(lines.str()));
      std::ostringstream os; s->insert(os);
    } else if ( kind == 1 ) {
      Record got; FileStore::extract(std::stringstream(rec.str()), got);
      std::ostringstream os; FileStore::insert(os, got);
    } else {
      for ( auto & b : record ) { auto s = factory->create(); s->extract(std::stringstream(lines.str())); s->flush_to_static_store(b); }
      owner->flush_static_store();
    }
  });
  c.nontrivial();
}

PBT_PROPERTY(folders, 3)
{
  fs::path dir = scratch() / "store";
  fs::remove_all(dir); fs::create_directories(dir);
  ConfigNode n; n.prime = 3; n.prime_exponent = 1; n.genus = 1; n.with_marked_point = false; n.count_exponent = 1; n.package_size = 10; n.result_path = dir;
  unsigned kind = c.pick(3), m = 1 + c.sized(20);
  Record record; for ( unsigned k=0; k<m; ++k ) record.insert(gen_block(c));
  std::ostringstream rec; FileStore::insert(rec, record);
  c.desc << kind << " " << rec.str();
  // files which are saved go away again, so that every repetition finds the same folder
  auto clear = [&] { vector<fs::path> ps; for ( fs::directory_iterator it(dir), end; it != end; ++it ) ps.push_back(it->path()); for ( auto & p : ps ) fs::remove(p); };
  if ( kind == 0 ) {
    FileStore(n).save(std::make_tuple(rec.str(), string("1;1:1\n")));
    repeat(c, "opening a result folder", often, [&] { FileStore s(n); for ( auto & b : record ) s.contains(b); });
  } else if ( kind == 1 ) {
    FileStore s(n);
    repeat(c, "saving into a result folder", often, [&] { s.save(std::make_tuple(rec.str(), string("1;1:1\n"))); clear(); });
  } else
    repeat(c, "opening and saving into a result folder", often, [&] { FileStore s(n); s.contains(*record.begin()); s.save(std::make_tuple(rec.str(), string("1;1:1\n"))); clear(); });
  fs::remove_all(dir);
  c.nontrivial();
}

// pools: several configurations after one another, and pools after one another
PBT_PROPERTY(pools, 2)
{
  fs::path dir = scratch() / "pool";
  unsigned threads = 1 + c.pick(4), nmb = 1 + c.pick(12); bool anew = c.chance(1,2);
  auto s = gen_field(c, 12); unsigned g = 1 + c.pick(2);
  vector<Block> blocks; auto t = base(s.p, s.r)->table;
  unsigned package = 1 + c.pick(8);
  { CurveIterator it(*t, g, false, package); for ( ; !it.is_end() && blocks.size() < nmb; it.step() ) blocks.push_back(it.as_block()); }
  c.desc << (anew ? "pools" : "one pool") << " of " << threads << " threads, " << blocks.size() << " blocks of genus " << g << " over F_" << s.p << "^" << s.r << " in packages of " << package;
  auto config = [&] {
    fs::remove_all(dir); fs::create_directories(dir);
    ConfigNode n; n.prime = s.p; n.prime_exponent = s.r; n.genus = g; n.with_marked_point = false; n.count_exponent = s.l; n.package_size = package; n.result_path = dir;
    return n;
  };
  auto make = [&] { return make_shared<StandaloneWorkerPool>(create_store_factory(StoreType::EC), threads, 0); };
  if ( anew )
    repeat(c, "running a pool", seldom, [&] { auto pool = make(); pool->update_config(config()); for ( auto & b : blocks ) pool->assign(b); pool.reset(); }, 32);
  else {
    auto pool = make();
    repeat(c, "giving a pool another configuration", seldom, [&] { pool->update_config(config()); for ( auto & b : blocks ) pool->assign(b); pool->wait_for_assigned_blocks(); }, 32);
    pool.reset();
  }
  fs::remove_all(dir);
  c.nontrivial();
}

// the pool distributed over processes (of the stand-in for Boost.MPI), each of which tells how much it uses
PBT_PROPERTY(distributed_pools, 1)
{
  fs::path dir = scratch() / "mpi";
  unsigned procs = 1 + c.weighted({1,4,3}), threads = 1 + c.pick(2), nmb = 1 + c.pick(10), package = 1 + c.pick(8); bool sync = c.chance(1,2);
  auto s = gen_field(c, 12); unsigned g = 1 + c.pick(2);
  vector<Block> blocks; auto t = base(s.p, s.r)->table;
  { CurveIterator it(*t, g, false, package); for ( ; !it.is_end() && blocks.size() < nmb; it.step() ) blocks.push_back(it.as_block()); }
  c.desc << procs << " processes of " << threads << " threads, " << blocks.size() << " blocks of genus " << g << " over F_" << s.p << "^" << s.r << " in packages of " << package;
  struct Slot { std::atomic<unsigned> asked, told; Use use; };
  auto * slots = (Slot *)mmap(nullptr, sizeof(Slot)*8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  int fds[2]; if ( pipe(fds) ) throw std::runtime_error("pipe");
  std::cout.flush();
  pid_t pid = fork();
  if ( pid == 0 ) {
    alarm(60); close(fds[0]);
    string out = "ok";
    setenv("STUB_N", std::to_string(procs).c_str(), 1); setenv("STUB_SYNC", sync ? "1" : "0", 1);
    auto * env = new boost::mpi::environment(boost::mpi::threading::funneled);
    auto world = make_shared<boost::mpi::communicator>();
    if ( world->rank() != 0 ) {
      alarm(60);
      auto * slot = slots + world->rank();
      std::thread([slot] { while ( true ) { unsigned n = slot->asked; if ( n != slot->told ) { slot->use = ::use(); slot->told = n; } usleep(200); } }).detach();
      main_mpi_worker(world); _exit(0);
    }
    try {
      auto pool = make_shared<MPIWorkerPool>(world, StoreType::EC, (int)threads, 0u);
      auto all = [&]() -> Use {          // of all processes
        Use sum = ::use();
        for ( unsigned rank=1; rank<procs; ++rank ) {
          unsigned n = ++slots[rank].asked;
          while ( slots[rank].told != n ) usleep(100);
          auto & u = slots[rank].use;
          sum.blocks += u.blocks; sum.bytes += u.bytes; sum.files += u.files; sum.threads += u.threads;
        }
        return sum;
      };
      repeat(c, "giving a distributed pool another configuration", seldom, [&] {
        fs::remove_all(dir); fs::create_directories(dir);
        ConfigNode n; n.prime = s.p; n.prime_exponent = s.r; n.genus = g; n.with_marked_point = false; n.count_exponent = s.l; n.package_size = package; n.result_path = dir;
        pool->update_config(n); for ( auto & b : blocks ) pool->assign(b); pool->wait_for_assigned_blocks();
      }, 32, all);
      pool.reset();
    } catch ( const std::exception & e ) { out = string("no ") + e.what(); for ( auto x : boost::mpi::stub::state().children ) kill(x, SIGKILL); }
    if ( write(fds[1], out.data(), out.size()) < 0 ) {}
    _exit(0);
  }
  close(fds[1]);
  string out; char b[4096]; ssize_t n;
  while ( (n = read(fds[0], b, sizeof b)) > 0 ) out.append(b, n);
  close(fds[0]);
  int st; waitpid(pid, &st, 0);
  munmap(slots, sizeof(Slot)*8);
  fs::remove_all(dir);
  PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0 && !out.empty(), "the pool ended with status " << st << " (" << out << ")");
  PBT_CHECK(out == "ok", out.substr(std::min<size_t>(3, out.size())));
  c.label("several processes");
  c.nontrivial();
}
