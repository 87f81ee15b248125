// C19: the OpenCL kernels, executed on the host with every order of the work items between barriers.
#include "common.hh"
#include "cldev.hh"
#include <numeric>

using cldev::Order; using cldev::permute;
extern const char evaluation_text[], reduction_text[];

// the kernel of a text for some value of a macro
static const cldev::Kernel & get_kernel(const char * text, const char * macro, unsigned value, unsigned nmb_args)
{
  static map<std::pair<const char*,unsigned>, cldev::Kernel> cache;
  auto it = cache.find({text,value});
  if ( it != cache.end() ) return it->second;
  auto & program = cldev::compile(text, string("-D") + macro + "=" + std::to_string(value));
  PBT_CHECK(program.handle, "a kernel can not be compiled with " << macro << "=" << value << ": " << program.log.substr(0,1500));
  cldev::Kernel k;
  PBT_CHECK(!program.names().empty() && program.kernel(program.names().front(), k), "no kernel in the text of a program");
  PBT_CHECK(k.nmb_args == nmb_args, "kernel " << program.names().front() << " has " << k.nmb_args << " arguments");
  return cache[{text,value}] = k;
}
static Order gen_order(Case & c) { return (Order)c.pick(3); }

static const int junk = 0x5a5a5a5a;
struct Buffer                       // guarded ends, for the build without address sanitizer
{
  vector<int> v; size_t n;
  Buffer(size_t n, int fill) : v(n+16, junk), n(n) { std::fill(v.begin()+8, v.end()-8, fill); }
  Buffer(const vector<int> & w) : Buffer(w.size(), 0) { std::copy(w.begin(), w.end(), v.begin()+8); }
  int * data() { return v.data()+8; }
  int & operator[](size_t k) { return v[8+k]; }
  void check(const char * what)
  {
    for ( size_t k=0; k<8; ++k ) PBT_CHECK(v[k] == junk && v[8+n+k] == junk, "the kernel writes beyond the bounds of " << what);
  }
};

struct Tables { vector<int> reduction, incrementation; vector<ref::el> powers; };
static Tables tables(const ref::Field & F, unsigned generator)         // with respect to gen^generator
{
  Tables t; unsigned m = F.q-1;
  vector<int> lg(F.q, -1);
  ref::el a = 1, g = F.pow(F.exp[1 % m], generator);
  for ( unsigned k=0; k<m; ++k ) { t.powers.push_back(a); lg[a] = k; a = F.mul(a,g); }
  for ( unsigned h=0; h<2; ++h ) for ( unsigned k=0; k<m; ++k ) t.reduction.push_back(k);
  t.incrementation.resize(F.q);
  for ( unsigned k=0; k<m; ++k ) { ref::el s = F.add(1, t.powers[k]); t.incrementation[k] = s ? lg[s] : (int)m; }
  t.incrementation[m] = 0;
  return t;
}

static ref::pField own_field(unsigned p, unsigned n)
{
  static map<std::pair<unsigned,unsigned>, ref::pField> cache;
  auto & f = cache[{p,n}];
  if ( !f ) f = ref::field(p,n);
  return f;
}

// marks of every x (as exponent of the generator of the tables)
static void evaluate(Case & c, const vector<int> & coefficients, Tables & t, unsigned q, vector<int> & unramified, vector<int> & ramified)
{
  unsigned m = q-1;
  Buffer co(coefficients), red(t.reduction), inc(t.incrementation), un(m, -77), ra(m, -77);
  auto & kernel = get_kernel(evaluation_text, "POLY_SIZE", coefficients.size(), 6);
  uint64_t seed = c.pick(1u << 30);
  unsigned lsz = 1;
  if ( c.chance(1,2) ) { for ( unsigned d : {2u,4u,8u,16u} ) if ( m % d == 0 && c.chance(1,2) ) lsz = d; }
  vector<long> args = {(long)co.data(), (long)m, (long)red.data(), (long)inc.data(), (long)un.data(), (long)ra.data()};
  std::function<void()> body = [&]() { cldev::call(kernel, args); };
  Order order = gen_order(c); string error;
  vector<unsigned> groups(m/lsz);
  permute(groups, order, seed);
  for ( unsigned g : groups ) PBT_CHECK(cldev::run_group(g, m/lsz, lsz, order, seed, body, error), error);
  co.check("the coefficients"); red.check("the reduction table"); inc.check("the incrementation table"); un.check("the unramified counts"); ra.check("the ramified counts");
  unramified.assign(un.data(), un.data()+m); ramified.assign(ra.data(), ra.data()+m);
  for ( size_t k=0; k<coefficients.size(); ++k ) PBT_CHECK(co[k] == coefficients[k], "the kernel changes the coefficients");
}

static vector<int> gen_coefficients(Case & c, unsigned q)
{
  unsigned n = 1 + c.sized(13), density = c.pick(4);
  vector<int> e(n);
  for ( auto & x : e ) x = c.chance(3-density, 4) ? (int)q-1 : c.chance(1,4) ? (int)(q-1 - c.pick(std::min(4u,q-1))) : (int)c.pick(q);
  return e;
}
static string show_case(unsigned p, unsigned n, const vector<int> & e)
{
  std::ostringstream os;
  os << "F_" << p << "^" << n << " exponents [" << str(e) << "] (" << ref::ipow(p,n)-1 << " is zero)";
  return os.str();
}

PBT_PROPERTY(evaluation_by_definition, 6)
{
  uint64_t bound = gen_bound(c, {70,25,5,0});
  FieldShape s = gen_field(c, bound);
  unsigned n = s.r*s.l, q = s.Q;
  auto F = own_field(s.p, n);
  unsigned g = 1;
  if ( c.chance(1,2) ) { g = 1 + c.pick(q-1); while ( std::__gcd(g, q-1) != 1 ) ++g; g %= q-1; if ( q == 3 ) g = 1; }
  Tables t = tables(*F, g);
  unsigned rounds = q <= 400 ? 1 + c.pick(6) : 1;
  while ( rounds-- ) {
    auto e = gen_coefficients(c, q);
    c.desc << show_case(s.p,n,e) << "; ";
    vector<int> un, ra;
    evaluate(c, e, t, q, un, ra);
    bool some[3] = {false,false,false};
    for ( unsigned k=0; k+1<q; ++k ) {
      ref::el x = t.powers[k], v = 0;
      for ( size_t j=e.size(); j-->0; ) v = F->add(F->mul(v,x), e[j] == (int)q-1 ? 0 : t.powers[e[j]]);
      int wu = v ? F->roots[v] : 0, wr = v ? 0 : 1;
      some[v ? F->roots[v] : 1] = true;
      PBT_CHECK(un[k] == wu && ra[k] == wr, show_case(s.p,n,e) << ": x = a^" << k << " is marked with " << un[k] << " unramified and " << ra[k] << " ramified points, but has "
          << wu << " and " << wr);
    }
    if ( some[1] ) c.label("has roots");
    if ( e.back() == (int)q-1 ) c.label("leading zeros");
    if ( n > 1 ) c.label("q = p^n");
    if ( some[0] && some[2] ) c.nontrivial();
  }
}

static int reduce(Case & c, const vector<int> & as, unsigned lsz, unsigned groups, unsigned size)
{
  Buffer in(as), out(size*groups, -12345), scratch(lsz, 99991);
  auto & kernel = get_kernel(reduction_text, "SIZE_PARTIAL_REDUCTION", size, 4);
  int len = as.size();
  uint64_t seed = c.pick(1u << 30);
  vector<unsigned> gx(groups);
  permute(gx, gen_order(c), seed);
  Order order = gen_order(c);
  vector<long> args = {(long)in.data(), (long)len, (long)scratch.data(), (long)out.data()};
  std::function<void()> f = [&]() { cldev::call(kernel, args); };
  string error;
  for ( unsigned g : gx ) {
    for ( unsigned k=0; k<lsz; ++k ) scratch[k] = 99991 + k;
    PBT_CHECK(cldev::run_group(g, groups, lsz, order, seed, f, error), error);
  }
  in.check("the input"); out.check("the sums"); scratch.check("the local sums");
  for ( size_t k=0; k<as.size(); ++k ) PBT_CHECK(in[k] == as[k], "the kernel changes its input");
  int sum = 0;
  for ( unsigned k=0; k<out.n; ++k ) sum += out[k];
  return sum;
}
static void gen_shape(Case & c, unsigned & lsz, unsigned & groups, unsigned & size)
{
  unsigned a = c.weighted({1,2,2,2,2,1,1,1,2}), b = c.pick(a+1);
  if ( c.chance(1,2) ) b = 0;
  lsz = 1u << a; size = 1u << b;
  groups = c.chance(1,8) ? 32 : 1 + c.pick(a > 6 ? 4 : 12);
}

PBT_PROPERTY(reduction_adds_up, 4)
{
  unsigned lsz, groups, size; gen_shape(c, lsz, groups, size);
  unsigned len;
  switch ( c.pick(4) ) {
    case 0: len = c.pick(lsz*groups + 1); break;
    case 1: len = c.pick(4*lsz*groups + 10); break;
    case 2: len = lsz*groups*(1+c.pick(3)) - 1 + c.pick(3); break;
    default: len = c.pick(20);
  }
  vector<int> as(len);
  unsigned kind = c.pick(3);
  uint64_t seed = c.pick(1u << 30);
  for ( auto & x : as ) { seed = pbt::mix64(seed); x = kind == 0 ? (int)(seed % 3) : kind == 1 ? (int)(seed % 20001) - 10000 : 1; }
  int want = std::accumulate(as.begin(), as.end(), 0);
  c.desc << groups << " groups of " << lsz << ", " << size << " sums per group, length " << len << (kind == 0 ? " counts" : kind == 1 ? " any values" : " ones");
  int got = reduce(c, as, lsz, groups, size);
  PBT_CHECK(got == want, c.desc.str() << ": the sums add up to " << got << " instead of " << want);
  if ( len > lsz ) c.label("longer than a group");
  if ( len % (lsz*groups) ) c.label("length not a multiple of the global size");
  if ( lsz > 1 && len > 1 ) c.nontrivial();
}

// evaluation and reduction together give what the processor implementation counts
PBT_PROPERTY(same_as_processor, 4)
{
  uint64_t bound = gen_bound(c, {60,35,5,0});
  FieldShape s = gen_field(c, bound);
  unsigned q = s.Q;
  s.r *= s.l; s.l = 1; s.q = q;
  if ( q > 8000 && c.chance(1,2) ) c.discard();
  auto b = base(s.p, s.r);
  auto ex = gen_exponents(c, q, 1 + c.pick(10));
  vector<int> e(ex.begin(), ex.end());
  c.desc << show(s, ex);
  Tables t = tables(*b->field, 1);
  vector<int> un, ra;
  evaluate(c, e, t, q, un, ra);
  unsigned lsz, groups, size; gen_shape(c, lsz, groups, size);
  long long u = reduce(c, un, lsz, groups, size), r = reduce(c, ra, lsz, groups, size);
  auto f = to_poly(*b, ex);
  if ( ex.front() == q-1 ) ++r; else u += b->field->roots[f[0]];
  if ( ref::deg(f) & 1 ) ++r; else u += b->field->roots[f.back()];
  Curve curve(b->table, ex);
  curve.count(reduction(s.p, s.r));
  auto got = curve.number_of_points().at(s.r);
  PBT_CHECK(get<0>(got) == u && get<1>(got) == r, "kernels count " << u << " unramified and " << r << " ramified points, the processor " << get<0>(got) << " and "
      << get<1>(got) << " for " << show(s, ex));
  if ( s.r > 1 ) c.label("q = p^n");
  c.nontrivial();
}
