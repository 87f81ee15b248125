// C20: counting through OpenCL (host code of the project, installed bindings, driver and device of our own).
#include "common.hh"
#include "fakecl.hh"
#include <sys/wait.h>
#include <unistd.h>

static fakecl::Setup one_device(Case & c)
{
  fakecl::Setup s;
  s.platforms = {{"vendor", 1, 0, 0}};
  s.laziness = c.of(vector<unsigned>{0, 30, 70, 100});
  s.seed = c.pick(1u << 30);
  return s;
}
static void check_driver()
{
  auto o = fakecl::observed();
  PBT_CHECK(o.error.empty(), "the driver complains: " << o.error);
}

struct CLTable { unsigned p, n; shared_ptr<OpenCLInterface> interface; shared_ptr<ReductionTable> table; };
static CLTable make_table(Case & c, const shared_ptr<OpenCLInterface> & interface, unsigned p, unsigned n)
{
  CLTable t{p, n, interface, nullptr};
  if ( c.chance(1,3) ) { auto copy = interface; t.table = make_shared<ReductionTable>(p, n, std::move(copy)); }
  else t.table = make_shared<ReductionTable>(p, n, interface);
  PBT_CHECK(t.table->is_opencl_enabled(), "a table made with OpenCL does not use it");
  return t;
}

// any sequence of curves, tables and interfaces
PBT_PROPERTY(counts, 12)
{
  fakecl::setup(one_device(c));
  uint64_t bound = gen_bound(c, {80,19,1,0});
  vector<shared_ptr<OpenCLInterface>> interfaces;
  for ( unsigned k=1+c.weighted({3,1}); k-->0; ) interfaces.push_back(make_shared<OpenCLInterface>());
  vector<CLTable> tables;
  vector<std::pair<FieldShape, vector<unsigned>>> curves;
  unsigned steps = 1 + c.sized(12);
  set<unsigned> degrees, fields;
  for ( unsigned k=0; k<steps; ++k ) {
    FieldShape s; vector<unsigned> e;
    if ( !curves.empty() && c.chance(1,4) ) { auto & x = curves[c.pick(curves.size())]; s = x.first; e = x.second; }
    else {
      s = gen_field(c, bound);
      if ( !tables.empty() && c.chance(1,2) ) {                 // the same table again
        auto & t = tables[c.pick(tables.size())];
        s.p = t.p; s.l = 1; s.r = t.n;
        for ( unsigned d=1; d<=t.n; ++d ) if ( t.n % d == 0 && c.chance(1,2) ) { s.r = d; s.l = t.n/d; }
        s.q = ref::ipow(s.p, s.r); s.Q = ref::ipow(s.p, t.n);
      }
      e = gen_exponents(c, s.q, gen_degree(c));
      if ( c.chance(1,8) ) e.push_back(s.q-1);                  // vanishing leading coefficients
      curves.push_back({s, e});
    }
    unsigned n = s.r*s.l;
    size_t at = tables.size();
    for ( size_t j=0; j<tables.size(); ++j ) if ( tables[j].p == s.p && tables[j].n == n && c.chance(3,4) ) at = j;
    if ( at == tables.size() ) tables.push_back(make_table(c, interfaces[c.pick(interfaces.size())], s.p, n));
    c.desc << show(s,e) << "; ";
    Curve curve(base(s.p,s.r)->table, e), other(base(s.p,s.r)->table, e);
    curve.count(tables[at].table);
    check_driver();
    other.count(reduction(s.p,n));
    auto & got = curve.number_of_points(); auto & want = other.number_of_points();
    PBT_CHECK(got == want, "through OpenCL " << (got.count(n) ? get<0>(got.at(n)) : 0) << " unramified and " << (got.count(n) ? get<1>(got.at(n)) : 0) << " ramified points, otherwise "
        << get<0>(want.at(n)) << " and " << get<1>(want.at(n)) << " for " << show(s,e) << " (" << got.size() << " fields)");
    degrees.insert(curve.degree()); fields.insert(s.Q);
    if ( c.chance(1,6) ) {                                      // a table that is given up before any count
      FieldShape x = gen_field(c, 400);
      make_table(c, interfaces[c.pick(interfaces.size())], x.p, x.r*x.l);
      c.label("table without counts");
    }
    if ( tables.size() > 1 && c.chance(1,8) ) tables.erase(tables.begin() + c.pick(tables.size()));
    if ( interfaces.size() > 1 && c.chance(1,8) ) interfaces.erase(interfaces.begin() + c.pick(interfaces.size()));
  }
  tables.clear(); interfaces.clear();
  check_driver();
  auto o = fakecl::observed();
  PBT_CHECK(o.launches >= steps, "only " << o.launches << " kernels launched for " << steps << " counts");
  if ( o.delayed ) c.label("commands delayed");
  if ( degrees.size() > 1 ) c.label("several degrees");
  if ( fields.size() > 1 ) c.label("several fields");
  c.nontrivial();
}

// all counts of one curve with the same table: different extensions
PBT_PROPERTY(towers, 4)
{
  fakecl::setup(one_device(c));
  FieldShape s = gen_field(c, 60);
  s.p = s.p; s.q = ref::ipow(s.p, s.r);
  auto interface = make_shared<OpenCLInterface>();
  unsigned top = 1; while ( ref::ipow(s.q, top+1) <= 3000 ) ++top;
  vector<shared_ptr<ReductionTable>> tables;
  for ( unsigned l=top; l>0; --l ) tables.push_back(make_shared<ReductionTable>(s.p, s.r*l, interface));
  for ( unsigned k=1+c.pick(6); k-->0; ) {
    auto e = gen_exponents(c, s.q, gen_degree(c));
    c.desc << show(s,e) << "; ";
    Curve curve(base(s.p,s.r)->table, e), other(base(s.p,s.r)->table, e);
    for ( auto & t : tables ) curve.count(t);
    for ( unsigned l=1; l<=top; ++l ) other.count(reduction(s.p, s.r*l));
    check_driver();
    PBT_CHECK(curve.number_of_points() == other.number_of_points(), "counts through OpenCL differ for " << show(s,e));
    PBT_CHECK(curve.hasse_weil_offsets() == other.hasse_weil_offsets(), "offsets through OpenCL differ for " << show(s,e));
  }
  if ( top > 1 ) c.nontrivial();
}

// every graphics device and accelerator is used, once although several platforms may offer it
PBT_PROPERTY(devices, 2)
{
  fakecl::Setup s;
  static const char * const vendors[] = {"A", "B", "AB", "C Corporation"};
  unsigned n = c.pick(5), want = 0;
  set<string> known;
  for ( unsigned k=0; k<n; ++k ) {
    fakecl::PlatformSpec p{vendors[c.pick(4)], c.pick(3), c.pick(3), c.pick(2)};
    c.desc << p.vendor << " " << p.gpus << "+" << p.accelerators << "+" << p.cpus << "; ";
    if ( known.insert(p.vendor).second ) want += p.gpus + p.accelerators; else c.label("two platforms of a vendor");
    s.platforms.push_back(p);
  }
  fakecl::setup(s);
  auto ds = OpenCLInterface::devices();
  PBT_CHECK(ds.size() == want, ds.size() << " devices found, expected " << want);
  set<void*> different;
  for ( auto & d : ds ) different.insert(d());
  PBT_CHECK(different.size() == want, "a device is listed twice");
  if ( want > 1 ) c.nontrivial();
}

// a call to the driver that fails: no wrong count
PBT_PROPERTY(failing_device, 3)
{
  auto setup = one_device(c);
  FieldShape s = gen_field(c, 400);
  unsigned n = s.r*s.l, curves = 1 + c.pick(3);
  vector<vector<unsigned>> es;
  vector<tuple<unsigned,unsigned>> want;
  unsigned degree = gen_degree(c);
  for ( unsigned k=0; k<curves; ++k ) {
    es.push_back(gen_exponents(c, s.q, c.chance(1,2) ? degree : gen_degree(c)));
    Curve other(base(s.p,s.r)->table, es.back());
    other.count(reduction(s.p,n));
    want.push_back(other.number_of_points().at(n));
  }
  setup.fail_at = c.pick(c.chance(1,2) ? 24 : 60);
  c.desc << show(s,es[0]) << " and " << curves-1 << " more, call " << setup.fail_at << " fails";
  int fd[2];
  PBT_CHECK(pipe(fd) == 0, "no pipe");
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if ( pid == 0 ) {
    close(fd[0]);
    freopen("/dev/null", "w", stderr);
    signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL);
    fakecl::setup(setup);
    auto interface = make_shared<OpenCLInterface>();
    ReductionTable table(s.p, n, interface);
    for ( auto & e : es ) {
      Curve curve(base(s.p,s.r)->table, e);
      curve.count(table);
      auto & pts = curve.number_of_points();
      unsigned x[2] = {0,0};
      if ( pts.count(n) ) { x[0] = get<0>(pts.at(n)); x[1] = get<1>(pts.at(n)); }
      if ( write(fd[1], x, sizeof x) != sizeof x ) _exit(9);
    }
    unsigned x[2] = {4000000000u, (unsigned)fakecl::observed().failed};
    if ( write(fd[1], x, sizeof x) != sizeof x ) _exit(9);
    _exit(0);
  }
  close(fd[1]);
  vector<tuple<unsigned,unsigned>> got; unsigned x[2]; bool ended = false, hit = true;
  while ( read(fd[0], x, sizeof x) == sizeof x ) { if ( x[0] == 4000000000u ) { ended = true; hit = x[1]; } else got.push_back(std::make_tuple(x[0],x[1])); }
  close(fd[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  for ( size_t k=0; k<got.size(); ++k )
    PBT_CHECK(got[k] == want[k], "call " << setup.fail_at << " to the driver failed, and the count of " << show(s,es[k]) << " is (" << get<0>(got[k]) << "," << get<1>(got[k])
        << ") instead of (" << get<0>(want[k]) << "," << get<1>(want[k]) << ")");
  if ( ended ) PBT_CHECK(got.size() == want.size(), "only " << got.size() << " counts");
  if ( hit ) { c.label("a call failed"); c.nontrivial(); }
  if ( hit && ended ) c.label("a call failed without consequence");
}
