// Generators and observations shared by the harnesses which link /repo's classes.
#ifndef COMMON_HH
#define COMMON_HH

#include "pbt.hh"
#include "ref.hh"

#include <memory>
#include <tuple>

#include "curve.hh"
#include "curve_iterator.hh"
#include "fq_element_table.hh"
#include "reduction_table.hh"

using std::make_shared;
using std::shared_ptr;
using std::map;
using std::set;
using std::string;
using std::vector;
using std::tuple;
using std::get;
using pbt::Case;

template<class T> string str(const vector<T> & v)
{
  std::ostringstream s; const char * sep = "";
  for ( auto & x : v ) { s << sep << x; sep = ","; }
  return s.str();
}

inline const vector<unsigned> & small_primes()       // odd primes
{
  static vector<unsigned> ps;
  if ( ps.empty() ) for ( unsigned p=3; p<140000; p+=2 ) if ( ref::is_prime(p) ) ps.push_back(p);
  return ps;
}
inline unsigned nmb_primes_upto(uint64_t b) { auto & ps = small_primes(); return std::upper_bound(ps.begin(), ps.end(), b) - ps.begin(); }

// a prime p with p^n <= bound
inline unsigned gen_prime(Case & c, unsigned n, uint64_t bound)
{
  uint64_t top = 2; while ( top < 140000 && ref::ipow(top+1,n) <= bound ) ++top;
  unsigned count = nmb_primes_upto(top);
  if ( count <= 1 ) { c.pick(1); return 3; }
  // small primes are special (they may divide the degree); large ones reach the table sizes
  switch ( c.weighted({3,1,2}) ) {
    case 0: return small_primes()[c.pick(std::min(count,5u))];
    case 1: return small_primes()[count - 1 - c.pick(std::min(count,4u))];
    default: return small_primes()[c.pick(count)];
  }
}

struct FieldShape { unsigned p, r, l; uint64_t q, Q; };      // F_q, q = p^r, counted over F_Q, Q = q^l

static const unsigned conway_limit = 109987;                 // beyond: FLINT has no Conway polynomial

inline FieldShape gen_field(Case & c, uint64_t bound)
{
  FieldShape s;
  vector<unsigned> exps; unsigned top = 1; while ( ref::ipow(3,top+1) <= bound ) ++top;
  unsigned n;
  if ( c.chance(1,4) ) n = 1 + c.pick(top); else n = 1 + c.pick(std::min(top,4u));
  s.p = gen_prime(c, n, bound);
  for ( unsigned d=1; d<=n; ++d ) if ( n % d == 0 ) exps.push_back(d);
  s.r = c.of(exps); s.l = n / s.r;
  s.q = ref::ipow(s.p,s.r); s.Q = ref::ipow(s.p,n);
  return s;
}

inline uint64_t gen_bound(Case & c, const vector<unsigned> & weights = {60,30,9,1})
{
  static const uint64_t bounds[] = {400, 8000, 90000, 700000};
  return bounds[c.weighted(weights)];
}

// element tables of the code under test, their listing, and the reference field made from it
struct Base
{
  shared_ptr<FqElementTable> table;
  ref::pField field;
  vector<ref::el> element;            // by exponent index, zero last
  unsigned index_of(ref::el e) const { return e == 0 ? field->q-1 : field->log[e]; }
};
inline vector<ref::el> listing(const FqElementTable & table, unsigned p, unsigned r)
{
  uint64_t q = ref::ipow(p,r);
  vector<ref::el> es;
  for ( uint64_t ix=0; ix<q; ++ix ) {
    uint64_t code = 0;
    for ( unsigned k=r; k-->0; ) code = code*p + nmod_poly_get_coeff_ui(table.at(ix), k);
    es.push_back(code);
  }
  return es;
}
inline shared_ptr<Base> make_base(unsigned p, unsigned r)
{
  auto b = make_shared<Base>();
  b->table = make_shared<FqElementTable>(p, r);
  b->element = listing(*b->table, p, r);
  try {
    b->field = ref::from_listing(p, r, vector<ref::el>(b->element.begin(), b->element.end()-1));
    if ( b->element.back() != 0 ) throw std::runtime_error("last entry is not zero");
  } catch ( const std::runtime_error & e ) {
    throw pbt::Fail(string("element table of F_") + std::to_string(p) + "^" + std::to_string(r) + ": " + e.what());
  }
  return b;
}
inline shared_ptr<Base> base(unsigned p, unsigned r)
{
  static map<std::pair<unsigned,unsigned>, shared_ptr<Base>> cache;
  auto & e = cache[{p,r}];
  if ( !e ) {
    e = make_base(p,r);
    if ( cache.size() > 400 ) { auto keep = e; cache.clear(); return keep; }
  }
  return e;
}
inline ref::pField ext(unsigned p, unsigned r, unsigned l)
{
  static map<tuple<unsigned,unsigned,unsigned>, ref::pField> cache;
  static uint64_t weight = 0;
  auto key = std::make_tuple(p,r,l);
  auto it = cache.find(key);
  if ( it != cache.end() ) return it->second;
  auto f = ref::extension(base(p,r)->field, l);
  if ( (weight += f->q + 1000) > 8000000 ) { cache.clear(); weight = f->q; }
  return cache[key] = f;
}
// reduction tables of the code under test, shared between cases
inline shared_ptr<ReductionTable> reduction(unsigned p, unsigned n)
{
  static map<std::pair<unsigned,unsigned>, shared_ptr<ReductionTable>> cache;
  static uint64_t weight = 0;
  auto it = cache.find({p,n});
  if ( it != cache.end() ) return it->second;
  auto t = make_shared<ReductionTable>(p,n);
  if ( (weight += ref::ipow(p,n) + 1000) > 12000000 ) { cache.clear(); weight = 0; }
  return cache[{p,n}] = t;
}

// coefficient exponents of a polynomial of exactly the given degree: zeros and ones well represented
inline vector<unsigned> gen_exponents(Case & c, uint64_t q, unsigned degree)
{
  unsigned density = c.pick(4);       // 0: sparse ... 3: dense
  vector<unsigned> e(degree+1);
  for ( unsigned ix=0; ix<degree; ++ix )
    e[ix] = c.chance(density == 0 ? 3 : density == 1 ? 2 : 1, density == 3 ? 12 : 4) == false && density != 0
              ? c.pick(q-1) : c.chance(1,3) ? c.pick(q-1) : q-1;
  e[degree] = c.pick(q-1);
  return e;
}
inline unsigned gen_degree(Case & c, unsigned top = 14)
{
  switch ( c.weighted({8,3,1}) ) {
    case 0: return 3 + c.pick(std::min(6u,top-2));
    case 1: return 3 + c.pick(std::min(12u,top-2));
    default: return 3 + c.pick(top-2);
  }
}
// degrees beyond those in use, with the sizes of machine words and bytes well represented
inline unsigned gen_wide_degree(Case & c, unsigned top = 300)
{
  static const unsigned edges[] = {16,32,64,128,256};
  unsigned d;
  if ( c.chance(1,2) ) { d = edges[c.pick(5)]; d = d - 3 + c.pick(7); }
  else d = 15 + c.pick(top-14);
  return std::min(d, top);
}
inline ref::poly to_poly(const Base & b, const vector<unsigned> & e)
{
  ref::poly f;
  for ( unsigned x : e ) f.push_back(b.element.at(x));
  ref::trim(f);
  return f;
}
inline vector<unsigned> to_exponents(const Base & b, const ref::poly & f)
{
  vector<unsigned> e;
  for ( auto x : f ) e.push_back(b.index_of(x));
  return e;
}
inline string show(const FieldShape & s, const vector<unsigned> & e)
{
  std::ostringstream os;
  os << "F_" << s.p << "^" << s.r << " exponents [" << str(e) << "] (" << s.q-1 << " is zero) over F_" << s.p << "^" << s.r*s.l;
  return os.str();
}
#endif
