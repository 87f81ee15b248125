// C03: squarefree test and ramification type.
#include "common.hh"

static ref::poly gen_poly(Case & c, const ref::Field & F, unsigned degree, bool monic)
{
  ref::poly f(degree+1);
  for ( unsigned k=0; k<degree; ++k ) f[k] = c.chance(1,3) ? 0 : c.pick(F.q);
  f[degree] = monic ? 1 : 1 + c.pick(F.q-1);
  return f;
}
// an irreducible polynomial of the given degree, found by search from a random start
static ref::poly gen_irreducible(Case & c, const ref::Field & F, unsigned degree)
{
  auto f = gen_poly(c, F, degree, true);
  uint64_t s = c.pick(1u<<30);
  for ( unsigned tries=0; tries<400; ++tries ) {
    if ( ref::squarefree(F,f) && ref::factor_degrees(F,f).size() == 1 ) return f;
    s = pbt::mix64(s);
    f[s % degree] = (s >> 20) % F.q;
  }
  throw pbt::Discard();
}
static ref::poly gen_rhs(Case & c, const ref::Field & F, bool & constructed)
{
  constructed = c.chance(3,5);
  bool wide = F.q <= 125 && c.chance(1,40);
  if ( !constructed ) return gen_poly(c, F, wide ? gen_wide_degree(c, 80) : gen_degree(c, 13), false);
  unsigned goal = wide ? gen_wide_degree(c, 140) : gen_degree(c, 13);
  ref::poly f{1};
  unsigned forced = c.pick(4);                   // 0: no preference, else small or large factors
  while ( ref::deg(f) < (int)goal ) {
    unsigned room = goal - ref::deg(f);
    unsigned d = forced == 1 ? 1 : forced == 2 ? std::min(room,2u) : 1 + c.pick(std::min(room, wide && c.chance(1,4) ? 24u : 8u));
    d = std::min(d, room);
    ref::poly g = gen_irreducible(c, F, d);
    f = ref::poly_mul(F, f, g);
    if ( c.chance(1,12) && ref::deg(f) + (int)d <= (int)goal ) f = ref::poly_mul(F, f, g);      // a repeated factor
  }
  return ref::poly_scale(F, 1 + c.pick(F.q-1), f);
}

PBT_PROPERTY(squarefree_and_type, 10)
{
  uint64_t bound = gen_bound(c, {75,22,3,0});
  FieldShape s = gen_field(c, bound);
  auto b = base(s.p, s.r);
  const ref::Field & F = *b->field;
  bool constructed;
  auto f = gen_rhs(c, F, constructed);
  if ( ref::deg(f) < 3 ) c.discard();
  auto e = to_exponents(*b, f);
  bool trailing = c.chance(1,6);
  auto given = e; if ( trailing ) given.push_back(s.q-1);
  Curve curve(b->table, given);
  bool want = ref::squarefree(F, f);
  c.desc << show(s,e) << (constructed ? " (product)" : "");
  PBT_CHECK(curve.has_squarefree_rhs() == want, "has_squarefree_rhs is " << !want << ", the right hand side is " << (want ? "" : "not ")
      << "squarefree: " << show(s,e));
  c.label(want ? "squarefree" : "not squarefree");
  if ( !want ) { c.nontrivial(); return; }
  auto type = ref::ramification(F, f);
  auto check = [&](const char * when) {
    auto got = curve.ramification_type();
    PBT_CHECK(got == type, when << ": ramification type " << str(got) << ", expected " << str(type) << " for " << show(s,e));
  };
  if ( c.chance(2,3) ) check("nothing counted");
  unsigned top = 0; while ( ref::ipow(s.q,top+1) <= std::max<uint64_t>(bound, s.q) && ref::ipow(s.q,top+1) <= 100000 ) ++top;
  if ( top == 0 ) { c.nontrivial(); return; }
  unsigned mode = c.pick(3);
  vector<unsigned> order;
  if ( mode == 0 ) for ( unsigned l=1; l<=std::min(top, 1+(unsigned)c.pick(top)); ++l ) order.push_back(l);
  else if ( mode == 1 ) for ( unsigned l=std::min(top, curve.genus()); l>0; --l ) order.push_back(l);
  else for ( unsigned k=1+c.pick(5); k>0; --k ) order.push_back(1+c.pick(top));
  c.desc << " counted";
  for ( unsigned l : order ) {
    c.desc << " " << l;
    if ( c.chance(1,9) && ref::ipow(s.q,l) < 2000 ) curve.count_naive_zech(l*s.r); else curve.count(reduction(s.p, l*s.r));
    if ( c.chance(1,2) ) check("during counting");
  }
  check("after counting");
  PBT_CHECK(curve.has_squarefree_rhs(), "has_squarefree_rhs changed after counting: " << show(s,e));
  if ( type.back() > order.size() ) c.label("factor degree beyond counted extensions");
  if ( type.back() > 3 ) c.label("factor of degree > 3");
  if ( s.r > 1 ) c.label("base field p^r");
  if ( order.size() > curve.genus() ) c.label("more extensions than the genus");
  c.nontrivial(show(s,e) + str(order));
}

// repeated factors hidden behind vanishing derivatives: p-th powers and their multiples
PBT_PROPERTY(inseparable, 1)
{
  FieldShape s; 
  do s = gen_field(c, 700); while ( s.p > 13 && (c.discard(), true) );
  auto b = base(s.p, s.r); const ref::Field & F = *b->field;
  ref::poly f{1};
  unsigned kind = c.pick(3);
  ref::poly g = gen_poly(c, F, 1 + c.pick(2), true);
  if ( kind == 0 ) for ( unsigned k=0; k<s.p; ++k ) f = ref::poly_mul(F,f,g);
  else if ( kind == 1 ) { f = gen_poly(c, F, 2 + c.pick(6), true); if ( c.chance(1,2) ) f = ref::poly_mul(F, f, ref::poly_mul(F,g,g)); }
  else { f.assign(s.p+1, 0); f[s.p] = 1; f[1] = c.pick(F.q); f[0] = c.pick(F.q); }           // x^p + a x + b
  f = ref::poly_scale(F, 1+c.pick(F.q-1), f);
  if ( ref::deg(f) < 3 ) c.discard();
  auto e = to_exponents(*b, f);
  c.desc << show(s,e);
  Curve curve(b->table, e);
  bool want = ref::squarefree(F,f);
  PBT_CHECK(curve.has_squarefree_rhs() == want, "has_squarefree_rhs is " << !want << " for " << show(s,e));
  if ( want ) {
    auto type = ref::ramification(F,f), got = curve.ramification_type();
    PBT_CHECK(got == type, "ramification type " << str(got) << ", expected " << str(type) << " for " << show(s,e));
  }
  c.label(want ? "squarefree" : "not squarefree");
  c.nontrivial();
}
