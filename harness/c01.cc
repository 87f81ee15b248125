// C01: the table based count equals the definition.
#include "common.hh"

struct Entry { FieldShape s; vector<unsigned> e; shared_ptr<Curve> curve; };

static void check_counts(const Entry & x, unsigned l, const char * when)
{
  auto f = to_poly(*base(x.s.p,x.s.r), x.e);
  auto want = ref::count_points(*ext(x.s.p,x.s.r,l), f);
  auto & pts = x.curve->number_of_points();
  auto it = pts.find(l*x.s.r);
  PBT_CHECK(it != pts.end(), when << ": no count reported over F_" << x.s.p << "^" << l*x.s.r << " for " << show(x.s,x.e));
  PBT_CHECK(get<0>(it->second) == want.first && get<1>(it->second) == want.second,
      when << ": counted (" << get<0>(it->second) << "," << get<1>(it->second) << "), by definition ("
      << want.first << "," << want.second << ") over F_" << x.s.p << "^" << l*x.s.r << " for " << show(x.s,x.e));
}

// several curves over one or more fields, counted over several extensions in any order with shared or own tables
PBT_PROPERTY(histories, 120)
{
  unsigned nmb = 1 + c.sized(5);
  vector<Entry> entries;
  uint64_t bound = gen_bound(c, {70,26,4,0});
  FieldShape s = gen_field(c, bound);
  string key;
  for ( unsigned k=0; k<nmb; ++k ) {
    if ( k && c.chance(1,3) ) s = gen_field(c, bound);
    Entry x; x.s = s;
    unsigned d = c.chance(1,25) ? gen_degree(c,60) : gen_degree(c);
    x.e = gen_exponents(c, s.q, d);
    unsigned trailing = c.chance(1,4) ? 1 + c.pick(3) : 0;
    auto given = x.e;
    for ( unsigned t=0; t<trailing; ++t ) given.push_back(s.q-1);
    x.curve = make_shared<Curve>(base(s.p,s.r)->table, given);
    vector<unsigned> ls;
    for ( unsigned l=1; ref::ipow(s.q,l) <= bound; ++l ) ls.push_back(l);
    unsigned counts = 1 + c.pick(std::min<size_t>(ls.size(),3));
    c.desc << show(s,x.e) << " + " << trailing << " trailing zeros, extensions";
    vector<unsigned> done;
    for ( unsigned j=0; j<counts; ++j ) {
      unsigned l = ls.at(j == 0 ? s.l-1 : c.pick(ls.size()));
      bool fresh = c.chance(1,8) && ref::ipow(s.q,l) < 3000;
      c.desc << " " << l << (fresh ? "(fresh table)" : "");
      if ( fresh ) { ReductionTable t(s.p, s.r*l); x.curve->count(t); }
      else if ( c.chance(1,2) ) x.curve->count(reduction(s.p, s.r*l));
      else x.curve->count(*reduction(s.p, s.r*l));
      done.push_back(l);
      check_counts(x, l, "after counting");
      c.label(s.r*l == 1 ? "prime field" : s.r == 1 ? "extension of prime field" : l == 1 ? "base field p^r" : "extension of p^r");
      if ( ref::ipow(s.q,l) > 60000 ) c.label("field > 60000");
      if ( d >= s.p ) c.label("degree >= p");
    }
    c.desc << "; ";
    if ( x.e[0] == s.q-1 ) c.label("f(0)=0");
    if ( trailing ) c.label("trailing zeros");
    key += show(s,x.e) + str(done);
    entries.push_back(x);
  }
  for ( auto & x : entries )          // later counts of other curves change nothing
    for ( auto & pt : map<unsigned,tuple<unsigned,unsigned>>(x.curve->number_of_points()) )
      check_counts(x, pt.first/x.s.r, "at the end");
  c.nontrivial(key);
}

// polynomials with many coefficients
PBT_PROPERTY(high_degrees, 6)
{
  Entry x; x.s = gen_field(c, gen_bound(c, {80,20,0,0}));
  unsigned d = gen_wide_degree(c);
  x.e = gen_exponents(c, x.s.q, d);
  x.curve = make_shared<Curve>(base(x.s.p,x.s.r)->table, x.e);
  c.desc << show(x.s,x.e);
  x.curve->count(reduction(x.s.p, x.s.r*x.s.l));
  check_counts(x, x.s.l, "high degree");
  if ( d >= 64 ) c.label("degree >= 64");
  if ( d >= 256 ) c.label("degree >= 256");
  c.nontrivial();
}

// large fields
PBT_PROPERTY(large_fields, 1)
{
  FieldShape s;
  unsigned kind = c.pick(4);
  if ( kind == 0 ) {                               // primes up to and beyond those with Conway polynomials
    s.p = small_primes()[nmb_primes_upto(60000) + c.pick(small_primes().size() - nmb_primes_upto(60000))];
    s.r = s.l = 1;
  } else if ( kind == 1 ) {
    s.p = small_primes()[c.pick(nmb_primes_upto(700))]; s.r = 1 + c.pick(2); s.l = 3 - s.r;
    if ( (uint64_t)s.p*s.p < 60000 ) s.p = small_primes()[nmb_primes_upto(245) + c.pick(nmb_primes_upto(500)-nmb_primes_upto(245))];
  } else {
    static const vector<std::pair<unsigned,unsigned>> pn{{3,10},{3,11},{3,12},{5,7},{5,8},{7,6},{11,5},{13,4},{13,5},{17,4},{19,4},{23,4},{29,4},{41,3},{61,3},{3,9}};
    auto x = c.of(pn);
    vector<unsigned> ds; for ( unsigned d=1; d<=x.second; ++d ) if ( x.second % d == 0 && ref::ipow(x.first,d) < 70000 ) ds.push_back(d);
    if ( c.chance(1,25) ) {                        // millions of elements
      static const vector<std::pair<unsigned,unsigned>> huge{{3,13},{3,14},{5,9},{7,7},{11,6},{13,6},{17,5},{19,5},{101,3},{127,3},{1021,2},{1999,2}};
      x = c.of(huge);
      ds.clear(); for ( unsigned d=1; d<=x.second; ++d ) if ( x.second % d == 0 && ref::ipow(x.first,d) < 70000 ) ds.push_back(d);
      c.label("field > 10^6");
    }
    s.p = x.first; s.r = c.of(ds); s.l = x.second/s.r;
  }
  s.q = ref::ipow(s.p,s.r); s.Q = ref::ipow(s.q,s.l);
  unsigned nmb = 1 + c.pick(2);
  for ( unsigned k=0; k<nmb; ++k ) {
    Entry x; x.s = s; x.e = gen_exponents(c, s.q, gen_degree(c,9));
    c.desc << show(s,x.e) << "; ";
    x.curve = make_shared<Curve>(base(s.p,s.r)->table, x.e);
    x.curve->count(reduction(s.p, s.r*s.l));
    check_counts(x, s.l, "large field");
    if ( s.Q > 65536 ) c.label("field > 2^16");
    if ( s.p > conway_limit ) c.label("prime without Conway polynomial");
  }
  c.nontrivial();
}
