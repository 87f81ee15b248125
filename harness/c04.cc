// C04: Hasse-Weil laws and symmetries.
#include "common.hh"

typedef __int128 big;

static ref::poly gen_squarefree(Case & c, const ref::Field & F, unsigned lo, unsigned hi)
{
  unsigned degree = lo + c.pick(hi-lo+1);
  ref::poly f(degree+1);
  for ( unsigned k=0; k<degree; ++k ) f[k] = c.chance(1,4) ? 0 : c.pick(F.q);
  f[degree] = 1 + c.pick(F.q-1);
  for ( unsigned k=0; k<30; ++k ) {
    if ( ref::squarefree(F,f) ) return f;
    f[k % (degree+1 > 2 ? 2 : 1)] = c.pick(F.q);
  }
  throw pbt::Discard();
}

// offsets over F_{q^l}, 1 <= l <= top
static vector<long long> offsets(const FieldShape & s, const ref::poly & f, unsigned top, vector<unsigned> & type, vector<tuple<unsigned,unsigned>> & pts, Case & c)
{
  auto b = base(s.p,s.r);
  auto e = to_exponents(*b,f);
  Curve curve(b->table, e);
  int genus = (ref::deg(f)-1)/2;
  PBT_CHECK((int)curve.genus() == genus && (int)curve.degree() == ref::deg(f), "genus " << curve.genus() << " degree " << curve.degree() << " for " << show(s,e));
  bool down = c.chance(1,2);
  for ( unsigned l=1; l<=top; ++l ) curve.count(reduction(s.p, s.r*(down ? top+1-l : l)));
  auto m = curve.hasse_weil_offsets();
  auto v = curve.hasse_weil_offsets(s.r*top);
  PBT_CHECK(v.size() == top && m.size() == top, "lists of offsets have lengths " << v.size() << " and " << m.size() << ", expected " << top << " for " << show(s,e));
  vector<long long> o;
  pts.clear();
  for ( unsigned l=1; l<=top; ++l ) {
    auto n = curve.number_of_points().at(s.r*l);
    long long want = (long long)ref::ipow(s.q,l) + 1 - get<0>(n) - get<1>(n);
    PBT_CHECK(m.count(s.r*l) && m.at(s.r*l) == want && v[l-1] == want, "offset over exponent " << s.r*l << " is " << (m.count(s.r*l) ? m.at(s.r*l) : 0) << " resp. " << v[l-1]
        << ", but q^l+1-N is " << want << " for " << show(s,e));
    pts.push_back(n);
    o.push_back(want);
  }
  // a shorter list is a prefix of the longer one
  if ( top > 1 ) {
    auto w = curve.hasse_weil_offsets(s.r*(top-1));
    PBT_CHECK(w.size() == top-1 && std::equal(w.begin(), w.end(), v.begin()), "shorter list of offsets differs for " << show(s,e));
  }
  type = curve.ramification_type();
  return o;
}

static unsigned top_exponent(const FieldShape & s, uint64_t bound) { unsigned t = 0; while ( ref::ipow(s.q,t+1) <= bound ) ++t; return t; }

// Weil bound, integral zeta numerator, functional equation (predicts the offsets beyond the genus)
PBT_PROPERTY(zeta, 5)
{
  uint64_t bound = gen_bound(c, {45,40,14,1});
  FieldShape s = gen_field(c, bound);
  if ( s.q > bound ) c.discard();
  auto b = base(s.p,s.r);
  unsigned top = top_exponent(s, bound);
  auto f = gen_squarefree(c, *b->field, 3, 2 + 2*std::max(2u, top + (unsigned)c.pick(2)));
  unsigned g = (ref::deg(f)-1)/2;
  top = std::min(top, 2*g+1);
  auto e = to_exponents(*b,f);
  c.desc << show(s,e) << " up to extension " << top;
  vector<unsigned> type; vector<tuple<unsigned,unsigned>> pts;
  auto o = offsets(s, f, top, type, pts, c);
  unsigned long long total = 0; for ( auto t : type ) total += t;
  PBT_CHECK(total == 2*g+2, "ramification type " << str(type) << " does not add up to 2g+2 for " << show(s,e));
  for ( unsigned l=1; l<=top; ++l )
    PBT_CHECK((big)o[l-1]*o[l-1] <= (big)4*g*g*(big)ref::ipow(s.q,l), "offset " << o[l-1] << " over F_{q^" << l << "} violates the Weil bound for " << show(s,e));
  // L(T) = sum c_k T^k = exp(-sum s_l T^l/l):  k c_k = - sum_{i=1..k} s_i c_{k-i}
  vector<big> co{1};
  for ( unsigned k=1; k<=std::min(top,g); ++k ) {
    big acc = 0; for ( unsigned i=1; i<=k; ++i ) acc -= (big)o[i-1]*co[k-i];
    PBT_CHECK(acc % (big)k == 0, "offsets are no power sums of an integral polynomial (coefficient " << k << ") for " << show(s,e) << " offsets " << str(o));
    co.push_back(acc/(big)k);
  }
  if ( top > g ) {
    for ( unsigned k=g+1; k<=2*g; ++k ) {          // c_{2g-j} = q^{g-j} c_j
      big m = co[2*g-k]; for ( unsigned i=0; i<k-g; ++i ) m *= (big)s.q; co.push_back(m);
    }
    for ( unsigned l=g+1; l<=top; ++l ) {
      big ck = l < co.size() ? co[l] : 0, acc = -(big)l*ck;
      for ( unsigned i=1; i<l; ++i ) if ( l-i < co.size() ) acc -= (big)o[i-1]*co[l-i];
      PBT_CHECK(acc == (big)o[l-1], "offset over F_{q^" << l << "} is " << o[l-1] << ", the zeta function demands " << (long long)acc << " for " << show(s,e));
    }
    c.label("functional equation tested");
  }
  if ( top > 1 ) c.label("integrality tested");
  c.label("genus " + std::to_string(std::min(g,6u)));
  c.nontrivial();
}

// counts over extensions that are too large to be counted here are put in place of the counted ones,
// where the class lets a derived one do so; within the Weil bound
template<class Base>
struct Recounted : Base
{
  using Base::Base;
  template<class Self = Recounted>
  auto put(int, unsigned l, unsigned u, unsigned r)
    -> decltype(std::declval<Self &>().nmb_points[l] = make_tuple(u,r), bool()) { static_cast<Self &>(*this).nmb_points[l] = make_tuple(u,r); return true; }
  bool put(long, unsigned, unsigned, unsigned) { return false; }
};

PBT_PROPERTY(wide_arithmetic, 1)
{
  FieldShape s = gen_field(c, 300);
  auto b = base(s.p,s.r);
  auto f = gen_squarefree(c, *b->field, 3, 10);
  unsigned g = (ref::deg(f)-1)/2, top = top_exponent(s, (1ull<<31)-1);
  if ( !top ) c.discard();
  auto e = to_exponents(*b,f);
  c.desc << show(s,e) << " with counts";
  Recounted<Curve> curve(b->table, e);
  map<unsigned,long long> want;
  bool gaps = c.chance(1,3), wide = false;
  for ( unsigned l=1; l<=top; ++l ) {
    if ( gaps && c.chance(1,3) ) continue;
    unsigned long long Q = ref::ipow(s.q,l);
    unsigned long long bound = std::min<unsigned long long>(2*g*std::sqrt((double)Q), Q+1);
    long long o = (long long)c.pick(2*bound+1) - (long long)bound;
    unsigned long long n = Q + 1 - o, r = c.pick(std::min<unsigned long long>(n,2*g+2)+1);
    if ( !curve.put(0, s.r*l, n-r, r) ) c.discard();
    c.desc << " " << s.r*l << ":" << n-r << "," << r;
    want[s.r*l] = o;
    if ( Q > (1u<<24) ) wide = true;
  }
  auto m = curve.hasse_weil_offsets();
  PBT_CHECK(m.size() == want.size(), "offsets over " << m.size() << " extensions reported instead of " << want.size() << ": " << c.desc.str());
  for ( auto & w : want ) PBT_CHECK(m.count(w.first) && m.at(w.first) == w.second,
      "offset over exponent " << w.first << " is " << (m.count(w.first) ? m.at(w.first) : 0) << " instead of " << w.second << ": " << c.desc.str());
  unsigned upto = 0; while ( want.count(upto + s.r) ) upto += s.r;
  PBT_CHECK(curve.max_prime_exponent() == upto, "counting is reported complete up to " << curve.max_prime_exponent() << " instead of " << upto << ": " << c.desc.str());
  auto v = curve.hasse_weil_offsets(upto);
  PBT_CHECK(v.size() == upto/s.r, "list of " << v.size() << " offsets up to exponent " << upto << ": " << c.desc.str());
  for ( unsigned k=0; k<v.size(); ++k ) PBT_CHECK(v[k] == want[s.r*(k+1)], "entry " << k << " of the list of offsets is " << v[k] << ": " << c.desc.str());
  c.label(wide ? "more than 2^24 elements" : "smaller fields");
  if ( wide ) c.nontrivial();
}

PBT_PROPERTY(symmetries, 6)
{
  uint64_t bound = gen_bound(c, {65,30,5,0});
  FieldShape s = gen_field(c, bound);
  auto b = base(s.p,s.r); const ref::Field & F = *b->field;
  unsigned top = std::min(top_exponent(s, bound), 6u);
  if ( !top ) c.discard();
  bool wide = s.q <= 125 && c.chance(1,30);
  auto f = wide ? gen_squarefree(c, F, 10, 70) : gen_squarefree(c, F, 3, 9);
  if ( wide ) top = std::min(top, 3u), c.label("degree >= 10");
  c.desc << show(s,to_exponents(*b,f)) << " up to extension " << top << ":";
  vector<unsigned> type, type2; vector<tuple<unsigned,unsigned>> pts, pts2;
  auto o = offsets(s, f, top, type, pts, c);
  ref::poly g = f; bool twisted = false;
  unsigned steps = 1 + c.pick(3);
  for ( unsigned k=0; k<steps; ++k ) {
    unsigned kind = c.pick(4);
    if ( kind == 0 ) {
      ref::el a = 1 + c.pick(F.q-1), bb = c.pick(F.q);
      c.desc << " x->" << a << "x+" << bb;
      g = ref::poly_compose_linear(F, g, a, bb);
    } else if ( kind == 1 ) {
      unsigned m = ref::deg(g) + (ref::deg(g) & 1);              // 2g+2
      ref::poly h(g); h.resize(m+1, 0); std::reverse(h.begin(), h.end()); ref::trim(h);
      if ( (ref::deg(h)-1)/2 != (ref::deg(g)-1)/2 ) continue;
      c.desc << " reversed";
      g = h;
    } else {
      ref::el a = 1 + c.pick(F.q-1);
      if ( kind == 2 ) a = F.mul(a,a);
      c.desc << " *" << a;
      if ( !F.is_square(a) ) twisted = !twisted;
      g = ref::poly_scale(F, a, g);
    }
  }
  auto o2 = offsets(s, g, top, type2, pts2, c);
  PBT_CHECK(type == type2, "ramification type " << str(type) << " becomes " << str(type2) << ":" << c.desc.str());
  for ( unsigned l=1; l<=top; ++l ) {
    long long want = twisted && (l & 1) ? -o[l-1] : o[l-1];
    PBT_CHECK(o2[l-1] == want, "offset " << o[l-1] << " over F_{q^" << l << "} becomes " << o2[l-1] << (twisted ? " (non-square scaling)" : "") << ": " << c.desc.str());
    PBT_CHECK(get<1>(pts[l-1]) == get<1>(pts2[l-1]), "ramified points " << get<1>(pts[l-1]) << " over F_{q^" << l << "} become " << get<1>(pts2[l-1]) << ": " << c.desc.str());
    if ( !twisted ) PBT_CHECK(pts[l-1] == pts2[l-1], "counts over F_{q^" << l << "} change: " << c.desc.str());
  }
  c.label(twisted ? "twisted" : "isomorphic");
  if ( g != f ) c.nontrivial();
}
