// C07: the enumeration with multiplicities represents every squarefree right hand side exactly once.
#include "common.hh"
#include "block_iterator.hh"

typedef vector<tuple<unsigned,unsigned>> Box;

// all boxes of an enumeration, with lookup of the boxes which contain a vector
struct Boxes
{
  vector<Box> list;
  struct Node { vector<tuple<unsigned,unsigned,int>> children; };       // (lo, hi, node or -1)
  vector<Node> nodes;
  map<size_t,int> roots;                                                // by length

  void add(const Box & box)
  {
    list.push_back(box);
    if ( !roots.count(box.size()) ) { roots[box.size()] = nodes.size(); nodes.emplace_back(); }
    int at = roots[box.size()];
    for ( size_t k=box.size(); k-->0; ) {
      int next = -1;
      // boxes come in order, the last child is the one wanted most often
      auto & ch = nodes[at].children;
      if ( k > 0 ) {
        for ( size_t j=ch.size(); j-->0; ) if ( get<0>(ch[j]) == get<0>(box[k]) && get<1>(ch[j]) == get<1>(box[k]) ) { next = get<2>(ch[j]); break; }
      }
      if ( next < 0 ) {
        int fresh = -1;
        if ( k > 0 ) { fresh = nodes.size(); nodes.emplace_back(); }
        nodes[at].children.push_back(std::make_tuple(get<0>(box[k]), get<1>(box[k]), fresh));
        next = fresh;
      }
      at = next;
    }
  }
  unsigned containing(const vector<unsigned> & v) const
  {
    auto it = roots.find(v.size());
    return it == roots.end() ? 0 : descend(it->second, v, v.size()-1);
  }
  unsigned descend(int at, const vector<unsigned> & v, size_t k) const
  {
    unsigned n = 0;
    for ( auto & ch : nodes[at].children )
      if ( get<0>(ch) <= v[k] && v[k] < get<1>(ch) ) n += k == 0 ? 1 : descend(get<2>(ch), v, k-1);
    return n;
  }
};

struct Setup { unsigned p, r, genus; bool marked; unsigned package; uint64_t q; shared_ptr<Base> b; Boxes boxes; };

static string show(const Setup & s)
{
  std::ostringstream os;
  os << "F_" << s.p << "^" << s.r << ", genus " << s.genus << (s.marked ? ", marked point" : "") << ", package size " << s.package;
  return os.str();
}
static string show_box(const Box & b)
{
  std::ostringstream os;
  for ( auto & x : b ) os << "[" << get<0>(x) << "," << get<1>(x) << ")";
  return os.str();
}

static unsigned gen_package(Case & c, uint64_t least)
{
  uint64_t size;
  switch ( c.weighted({3,2,2}) ) {
    case 0: size = 1 + c.pick(300); break;
    case 1: size = least + c.pick(3*least); break;
    default: size = 1 + c.magnitude(31);
  }
  return std::max<uint64_t>(std::min<uint64_t>(size, 4000000000u), least);
}

// collects the boxes; false: too many
static bool collect(Setup & s, size_t limit)
{
  CurveIterator iter(*s.b->table, s.genus, s.marked, s.package);
  for ( ; !iter.is_end(); iter.step() ) {
    if ( s.boxes.list.size() >= limit ) return false;
    Box box = iter.as_block();
    auto position = iter.as_position();
    PBT_CHECK(position.size() == box.size(), "position and block differ in length, " << show(s));
    for ( size_t k=0; k<box.size(); ++k )
      PBT_CHECK(position[k] == get<0>(box[k]), "position " << str(position) << " is not the first of block " << show_box(box) << ", " << show(s));
    PBT_CHECK(box.size() == 2*s.genus+2 || (!s.marked && box.size() == 2*s.genus+3),
        "block " << show_box(box) << " has wrong length for " << show(s));
    uint64_t size = 1;
    for ( auto & x : box ) {
      PBT_CHECK(get<0>(x) < get<1>(x) && get<1>(x) <= s.q, "block " << show_box(box) << " has wrong bounds for " << show(s));
      size *= get<1>(x) - get<0>(x);
    }
    PBT_CHECK(size <= s.package, "block " << show_box(box) << " exceeds the package size, " << show(s));
    s.boxes.add(box);
  }
  return true;
}

static double estimate(uint64_t q, unsigned g, unsigned package)
{
  double n = 6;
  for ( unsigned k=0; k<2*g; ++k ) n *= q;
  return n / package + 40*g;
}

static Setup gen_setup(Case & c, uint64_t max_q, size_t limit, unsigned max_genus)
{
  Setup s;
  FieldShape f = gen_field(c, max_q);
  s.p = f.p; s.r = f.r*f.l; s.q = f.Q;
  s.genus = 1 + c.weighted({16,12,7,4,2,2});
  if ( s.genus > max_genus ) s.genus = max_genus;
  while ( s.genus > 1 && estimate(s.q, s.genus, 2000000000u) > limit/4. ) --s.genus;
  s.marked = c.chance(1,3);
  double least = estimate(s.q, s.genus, 1) * 4 / limit;
  s.package = gen_package(c, least < 1 ? 1 : (uint64_t)least);
  s.b = base(s.p, s.r);
  c.desc << show(s);
  if ( !collect(s, limit) ) c.discard();
  c.label(s.p > 2*s.genus+2 ? "p > degree" : (2*s.genus+1) % s.p == 0 || (2*s.genus+2) % s.p == 0 ? "p divides a degree" : "other p");
  if ( s.r > 1 ) c.label("q = p^r");
  c.label("genus " + std::to_string(s.genus));
  return s;
}

// 2 * multiplicity, as a number
static uint64_t weight(const Setup & s, const vector<unsigned> & exponents)
{
  vector<unsigned> support;
  for ( unsigned k=0; k<exponents.size(); ++k ) if ( exponents[k] != s.q-1 ) support.push_back(k);
  fmpz_t m; fmpz_init(m);
  CurveIterator::multiplicity(m, s.p, s.q, support);
  PBT_CHECK(fmpz_sgn(m) > 0 && fmpz_cmp_ui(m, 1ULL<<62) < 0, "multiplicity for support " << str(support) << " over F_" << s.q << " is out of bounds");
  uint64_t v = 2*fmpz_get_ui(m); fmpz_clear(m);
  return v;
}

static ref::poly gen_squarefree(Case & c, const Setup & s, unsigned degree)
{
  auto & F = *s.b->field;
  bool few = c.chance(2,5);            // two to four terms, at any distances
  for ( unsigned attempt=0; attempt<40; ++attempt ) {
    vector<unsigned> e;
    if ( few ) {
      e.assign(degree+1, s.q-1);
      e[degree] = c.pick(s.q-1);
      for ( unsigned k=1+c.weighted({2,5,2}), top=degree; k>0 && top>0; --k ) {
        top = c.chance(1,4) ? 0 : c.pick(top);
        e[top] = c.pick(s.q-1);
      }
    }
    else e = gen_exponents(c, s.q, degree);
    ref::poly f = to_poly(*s.b, e);
    if ( ref::squarefree(F, f) ) { if ( few ) c.label("few terms"); return f; }
  }
  c.discard();
  return {};
}

// orbit sums by running through the whole group
PBT_PROPERTY(orbit_sums, 12)
{
  Setup s = gen_setup(c, c.chance(1,6) ? 81 : 27, 60000, 6);
  auto & F = *s.b->field;
  unsigned degree = 2*s.genus + 1 + (s.marked ? 0 : c.pick(2));
  auto f = gen_squarefree(c, s, degree);
  c.desc << ", f = exponents " << str(to_exponents(*s.b,f));
  unsigned __int128 sum = 0; uint64_t members = 0;
  vector<unsigned> e, scaled;
  for ( ref::el a=1; a<s.q; ++a ) for ( ref::el b=0; b<s.q; ++b ) {
    e = to_exponents(*s.b, ref::poly_compose_linear(F, f, a, b));
    scaled = e;
    for ( uint64_t t=0; t<s.q-1; ++t ) {
      for ( size_t k=0; k<e.size(); ++k ) if ( e[k] != s.q-1 ) { scaled[k] = e[k] + t; if ( scaled[k] >= s.q-1 ) scaled[k] -= s.q-1; }
      unsigned n = s.boxes.containing(scaled);
      PBT_CHECK(n <= 1, "exponents " << str(scaled) << " are in " << n << " blocks of the enumeration, " << show(s));
      if ( n ) { sum += weight(s, scaled); ++members; }
    }
  }
  uint64_t group = s.q*(s.q-1)*(s.q-1);
  PBT_CHECK(sum == group, "the orbit of exponents " << str(to_exponents(*s.b,f)) << " has weight " << (double)sum/group
      << " times its size (" << members << " transformations lead to enumerated members), " << show(s));
  c.nontrivial(c.desc.str());
}

// orbit sums for larger fields: for each x -> ax+b the scaling is determined by a coordinate fixed in the box
PBT_PROPERTY(orbit_sums_large, 4)
{
  bool many = c.chance(1,2);                     // higher genus, smaller fields
  Setup s = gen_setup(c, many ? 30 : 343, many ? 4000 : 400, 6);
  auto & F = *s.b->field;
  unsigned degree = 2*s.genus + 1 + (s.marked ? 0 : c.pick(2));
  auto f = gen_squarefree(c, s, degree);
  c.desc << ", f = exponents " << str(to_exponents(*s.b,f));
  unsigned __int128 sum = 0; uint64_t members = 0;
  vector<unsigned> e, scaled; std::set<unsigned> shifts;
  for ( ref::el a=1; a<s.q; ++a ) for ( ref::el b=0; b<s.q; ++b ) {
    e = to_exponents(*s.b, ref::poly_compose_linear(F, f, a, b));
    shifts.clear();
    for ( auto & box : s.boxes.list ) {
      if ( box.size() != e.size() ) continue;
      bool possible = true; size_t narrow = e.size();
      for ( size_t k=e.size(); k-->0 && possible; ) {
        if ( e[k] == s.q-1 ) possible = get<1>(box[k]) == s.q;
        else {
          if ( get<0>(box[k]) == s.q-1 ) possible = false;
          else if ( narrow == e.size() || get<1>(box[k])-get<0>(box[k]) < get<1>(box[narrow])-get<0>(box[narrow]) ) narrow = k;
        }
      }
      if ( !possible || narrow == e.size() ) continue;
      for ( unsigned x=get<0>(box[narrow]); x<std::min<unsigned>(get<1>(box[narrow]),s.q-1); ++x )
        shifts.insert((x + s.q-1 - e[narrow]) % (s.q-1));
    }
    for ( unsigned t : shifts ) {
      scaled = e;
      for ( auto & x : scaled ) if ( x != s.q-1 ) x = (x + t) % (s.q-1);
      unsigned n = s.boxes.containing(scaled);
      PBT_CHECK(n <= 1, "exponents " << str(scaled) << " are in " << n << " blocks of the enumeration, " << show(s));
      if ( n ) { sum += weight(s, scaled); ++members; }
    }
  }
  uint64_t group = s.q*(s.q-1)*(s.q-1);
  PBT_CHECK(sum == group, "the orbit of exponents " << str(to_exponents(*s.b,f)) << " has weight " << (double)sum/group
      << " times its size (" << members << " transformations lead to enumerated members), " << show(s));
  c.nontrivial(c.desc.str());
}

// Right hand sides of the enumeration, moved by x -> ax and scalings only.  Members of the enumeration in their orbits have
// the same b (none, with the usual normal form), or all b lead to as many.
static void moved_by_scalings(Case & c, const Setup & s, const vector<unsigned> & e)
{
  unsigned __int128 sum = 0; uint64_t members = 0;
  vector<unsigned> moved = e, scaled = e; std::set<unsigned> shifts;
  for ( uint64_t a=0; a<s.q-1; ++a ) {
    for ( size_t k=0; k<e.size(); ++k ) if ( e[k] != s.q-1 ) moved[k] = (e[k] + k*a) % (s.q-1);
    shifts.clear();
    for ( auto & box : s.boxes.list ) {
      if ( box.size() != e.size() ) continue;
      bool possible = true; size_t narrow = e.size();
      for ( size_t k=e.size(); k-->0 && possible; ) {
        if ( moved[k] == s.q-1 ) possible = get<1>(box[k]) == s.q;
        else if ( get<0>(box[k]) == s.q-1 ) possible = false;
        else if ( narrow == e.size() || get<1>(box[k])-get<0>(box[k]) < get<1>(box[narrow])-get<0>(box[narrow]) ) narrow = k;
      }
      if ( !possible || narrow == e.size() ) continue;
      if ( get<1>(box[narrow])-get<0>(box[narrow]) > 50 ) c.discard();
      for ( unsigned x=get<0>(box[narrow]); x<std::min<unsigned>(get<1>(box[narrow]),s.q-1); ++x )
        shifts.insert((x + s.q-1 - moved[narrow]) % (s.q-1));
    }
    for ( unsigned t : shifts ) {
      for ( size_t k=0; k<e.size(); ++k ) scaled[k] = moved[k] == s.q-1 ? moved[k] : (moved[k] + t) % (s.q-1);
      unsigned n = s.boxes.containing(scaled);
      PBT_CHECK(n <= 1, "exponents " << str(scaled) << " are in " << n << " blocks of the enumeration, " << show(s));
      if ( n ) { sum += weight(s, scaled); ++members; }
    }
  }
  unsigned __int128 group = (unsigned __int128)s.q*(s.q-1)*(s.q-1);
  PBT_CHECK(sum == group || sum*s.q == group, "the orbit of exponents " << str(e) << " has weight " << (double)sum/(double)group
      << " times its size (" << members << " transformations lead to enumerated members), " << show(s));
}

// large fields
PBT_PROPERTY(orbit_sums_huge, 3)
{
  Setup s;
  FieldShape f; bool low = c.chance(3,4);          // more terms, or more elements
  do f = gen_field(c, low ? 100 : 250000); while ( !low && f.Q <= 343 && c.chance(3,4) );
  s.p = f.p; s.r = f.r*f.l; s.q = f.Q; s.genus = 1; s.marked = c.chance(1,4);
  while ( s.genus < 6 && estimate(s.q, s.genus+1, 4000000000u) * s.q < (low ? 1e6 : 1e7) ) ++s.genus;
  s.genus = c.chance(1,2) ? s.genus : 1 + c.pick(s.genus);
  s.package = 4000000000u - c.magnitude(20);
  FqElementTable table(s.p, s.r);
  c.desc << show(s);
  CurveIterator iter(table, s.genus, s.marked, s.package);
  for ( ; !iter.is_end(); iter.step() ) { if ( s.boxes.list.size() * s.q > 60000000 ) c.discard(); s.boxes.add(iter.as_block()); }
  auto shared_table = make_shared<FqElementTable>(s.p, s.r);
  vector<unsigned> e;
  for ( unsigned attempt=0; ; ++attempt ) {
    if ( attempt == 40 ) c.discard();
    auto & box = c.of(s.boxes.list);
    e.clear();
    unsigned density = low ? 1 + c.pick(3) : c.pick(4), one = c.pick(box.size()), two = c.chance(1,2) ? c.pick(2) : c.pick(box.size());
    for ( auto & x : box ) {
      unsigned w = get<1>(x) - get<0>(x);
      bool zero = density == 3 ? e.size() != one && e.size() != two : c.pick(3) > density;
      e.push_back(get<1>(x) == s.q && zero ? s.q-1 : get<0>(x) + c.pick(w));
    }
    if ( e.back() == s.q-1 ) continue;
    Curve curve(shared_table, e);
    if ( curve.has_squarefree_rhs() ) break;
  }
  c.desc << ", exponents " << str(e);
  moved_by_scalings(c, s, e);
  c.label("genus " + std::to_string(s.genus));
  c.label(s.q > 92681 ? "q > 92681" : s.q > 1625 ? "q > 1625" : "q > 343");
  c.nontrivial(c.desc.str());
}

// One right hand side from each block of an enumeration, with few further terms, so that each pattern of leading terms occurs.
PBT_PROPERTY(patterns, 6)
{
  Setup s;
  FieldShape f = gen_field(c, 110);
  s.p = f.p; s.r = f.r*f.l; s.q = f.Q; s.marked = c.chance(1,4);
  s.genus = 1 + c.pick(6);
  if ( estimate(s.q, s.genus, 4000000000u) > 5000 ) c.discard();
  s.package = 4000000000u;
  auto table = make_shared<FqElementTable>(s.p, s.r);
  c.desc << show(s);
  for ( CurveIterator iter(*table, s.genus, s.marked, s.package); !iter.is_end(); iter.step() ) {
    if ( s.boxes.list.size() > 3000 ) c.discard();
    s.boxes.add(iter.as_block());
  }
  unsigned density = c.pick(3), want = std::max<uint64_t>(1, 20000000/(s.q*s.boxes.list.size()*(2*s.genus+3))), done = 0;
  for ( size_t k=0; k<s.boxes.list.size(); ++k ) {
    if ( s.boxes.list.size() > want && c.pick(s.boxes.list.size()) >= want ) continue;
    auto & box = s.boxes.list[k];
    for ( unsigned attempt=0; attempt<6; ++attempt ) {
      vector<unsigned> e; bool wide = false;
      for ( auto & x : box ) {
        unsigned w = get<1>(x) - get<0>(x);
        bool zero = get<1>(x) == s.q && w > 1 && c.pick(6) >= density + (attempt > 2);
        if ( w > 50 && s.q > 50 && get<1>(x) != s.q ) wide = w < s.q-1;
        e.push_back(zero ? s.q-1 : get<0>(x) + c.pick(w));
      }
      if ( wide || e.back() == s.q-1 ) continue;
      Curve curve(table, e);
      if ( !curve.has_squarefree_rhs() ) continue;
      moved_by_scalings(c, s, e); ++done;
      break;
    }
  }
  if ( !done ) c.discard();
  c.label("right hand sides from each block");
  c.nontrivial(c.desc.str());
}

// total weight of a complete enumeration; no right hand side is visited twice
PBT_PROPERTY(total_mass, 3)
{
  static const vector<tuple<unsigned,unsigned,unsigned>> small = {{3,1,1},{5,1,1},{3,1,2},{7,1,1},{3,2,1},{11,1,1},{5,1,2},{13,1,1},{3,1,3},{7,1,2},{17,1,1},{5,2,1},{3,3,1}};
  Setup s;
  std::tie(s.p, s.r, s.genus) = c.of(small);
  s.q = ref::ipow(s.p,s.r); s.b = base(s.p,s.r);
  s.marked = c.chance(1,3);
  s.package = c.chance(1,4) ? 1 + c.magnitude(31) : 1 + c.pick(4000);
  c.desc << show(s);
  if ( !collect(s, 100000) ) c.discard();
  auto & F = *s.b->field;
  uint64_t sum = 0; std::set<uint64_t> seen;
  for ( auto & box : s.boxes.list )
    for ( BlockIterator it(box); !it.is_end(); it.step() ) {
      auto e = it.as_position();
      uint64_t code = e.size();
      for ( auto x : e ) code = code*s.q + x;
      PBT_CHECK(seen.insert(code).second, "exponents " << str(e) << " are visited twice, " << show(s));
      auto f = to_poly(*s.b, e);
      if ( f.size() != e.size() || !ref::squarefree(F, f) ) continue;
      sum += weight(s, e);
    }
  uint64_t want = 0;
  for ( unsigned d=2*s.genus+1; d<=2*s.genus+(s.marked?1u:2u); ++d ) want += (s.q-1)*(ref::ipow(s.q,d) - ref::ipow(s.q,d-1));
  PBT_CHECK(sum == want, "total weight " << sum << ", but there are " << want << " squarefree right hand sides, " << show(s));
  c.nontrivial(c.desc.str());
}
