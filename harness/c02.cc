// C02: the implementations agree; counting is idempotent; bookkeeping of what has been counted.
#include "common.hh"

struct Model { FieldShape s; vector<unsigned> e; shared_ptr<Curve> curve; map<unsigned,tuple<unsigned,unsigned>> counted; };

static void check_all(Model & m, const char * when)
{
  auto & pts = m.curve->number_of_points();
  string what = string(when) + ": " + show(m.s,m.e);
  PBT_CHECK(pts.size() == m.counted.size(), what << ": " << pts.size() << " extensions reported, " << m.counted.size() << " were requested");
  for ( auto & x : m.counted ) {
    auto it = pts.find(x.first);
    PBT_CHECK(it != pts.end(), what << ": no number for exponent " << x.first);
    PBT_CHECK(it->second == x.second, what << ": number for exponent " << x.first << " is (" << get<0>(it->second) << "," << get<1>(it->second)
        << "), was (" << get<0>(x.second) << "," << get<1>(x.second) << ")");
  }
  for ( unsigned fx=0; fx<=24; ++fx )
    PBT_CHECK(m.curve->has_counted(fx) == (m.counted.count(fx) != 0), what << ": has_counted(" << fx << ") is wrong");
  unsigned max = 0;
  while ( m.counted.count(max + m.s.r) ) max += m.s.r;
  PBT_CHECK(m.curve->max_prime_exponent() == max, what << ": max_prime_exponent is " << m.curve->max_prime_exponent() << ", expected " << max);
  auto list = m.curve->number_of_points(max);
  PBT_CHECK(list.size() == max/m.s.r, what << ": list of numbers of points has length " << list.size());
  for ( unsigned k=0; k<list.size(); ++k )
    PBT_CHECK(list[k] == m.counted.at((k+1)*m.s.r), what << ": entry " << k << " of the list of numbers of points");
}

static const char * const impl_name[] = {"table", "nmod", "zech"};
static void request(Curve & curve, unsigned p, unsigned n, unsigned impl)
{
  if ( impl == 0 ) curve.count(reduction(p,n));
  else if ( impl == 1 ) curve.count_naive_nmod(n);
  else curve.count_naive_zech(n);
}

PBT_PROPERTY(histories, 40)
{
  uint64_t bound = gen_bound(c, {80,20,0,0});
  unsigned nmb = 1 + c.pick(3);
  FieldShape s = gen_field(c, bound);
  vector<Model> ms(nmb);
  for ( auto & m : ms ) {
    if ( &m != &ms[0] && c.chance(1,3) ) s = gen_field(c, bound);
    m.s = s; m.e = gen_exponents(c, s.q, bound == 400 && c.chance(1,30) ? gen_wide_degree(c,140) : gen_degree(c));
    m.curve = make_shared<Curve>(base(s.p,s.r)->table, m.e);
    c.desc << show(s,m.e) << "; ";
  }
  unsigned steps = 1 + c.sized(9);
  set<unsigned> used; bool repeated = false;
  for ( unsigned k=0; k<steps; ++k ) {
    Model & m = ms[c.pick(nmb)];
    vector<unsigned> ls;
    for ( unsigned l=1; ref::ipow(m.s.q,l) <= bound; ++l ) ls.push_back(l);
    unsigned n = m.s.r * c.of(ls), impl = c.pick(3);
    c.desc << (&m - &ms[0]) << ":" << impl_name[impl] << "(" << n << ") ";
    used.insert(impl);
    if ( m.counted.count(n) ) repeated = true;
    request(*m.curve, m.s.p, n, impl);
    if ( !m.counted.count(n) ) {
      auto & pts = m.curve->number_of_points();
      auto it = pts.find(n);
      PBT_CHECK(it != pts.end(), "nothing reported for exponent " << n << " after counting " << show(m.s,m.e));
      m.counted[n] = it->second;
      for ( unsigned other=0; other<3; ++other ) if ( other != impl ) {      // differential: fresh curve, other implementation
        Curve d(base(m.s.p,m.s.r)->table, m.e);
        request(d, m.s.p, n, other);
        auto jt = d.number_of_points().find(n);
        PBT_CHECK(jt != d.number_of_points().end() && jt->second == it->second,
            impl_name[impl] << " counts (" << get<0>(it->second) << "," << get<1>(it->second) << "), " << impl_name[other] << " counts ("
            << (jt == d.number_of_points().end() ? 0 : get<0>(jt->second)) << "," << (jt == d.number_of_points().end() ? 0 : get<1>(jt->second))
            << ") over exponent " << n << " for " << show(m.s,m.e));
      }
    }
    for ( auto & x : ms ) check_all(x, "during the history");
  }
  if ( repeated ) c.label("repeated request");
  if ( used.size() > 1 ) c.label("mixed implementations");
  if ( s.r > 1 ) c.label("base field p^r");
  c.nontrivial();
}

// medium fields, each implementation once
PBT_PROPERTY(differential_medium, 1)
{
  FieldShape s;
  bool wide = c.chance(1,14);            // more than 2^16 elements above each of the base field
  if ( wide ) { s = gen_field(c, 20); s.p = 3; s.r = 1; s.l = 11; s.q = 3; s.Q = 177147; c.label("index beyond 2^16"); }
  else do s = gen_field(c, 20000); while ( s.Q < 400 && (c.discard(), true) );
  auto e = gen_exponents(c, s.q, gen_degree(c, wide ? 5 : 9));
  c.desc << show(s,e);
  vector<tuple<unsigned,unsigned>> got;
  unsigned n = s.r*s.l;
  for ( unsigned impl=0; impl<3; ++impl ) {
    Curve d(base(s.p,s.r)->table, e);
    request(d, s.p, n, impl);
    got.push_back(d.number_of_points().at(n));
  }
  for ( unsigned impl=1; impl<3; ++impl )
    PBT_CHECK(got[0] == got[impl], "table counts (" << get<0>(got[0]) << "," << get<1>(got[0]) << "), " << impl_name[impl] << " counts ("
        << get<0>(got[impl]) << "," << get<1>(got[impl]) << ") for " << show(s,e));
  c.nontrivial();
}
