// C06: BlockIterator partitions the described set.
#include "common.hh"
#include "block_iterator.hh"

typedef vector<unsigned> Vec;
typedef tuple<unsigned,unsigned> Bounds;

struct Spec
{
  size_t length;
  map<size_t,Bounds> blocks;
  map<size_t,Vec> sets;
  map<size_t,tuple<size_t,map<unsigned,Vec>>> dependent;
};

static uint64_t mul_sat(uint64_t a, uint64_t b) { return b && a > (1ULL<<40)/b ? 1ULL<<40 : a*b; }

static void expand(const Spec & s, size_t k, Vec & v, Vec & raw, vector<Vec> & out, const vector<size_t> & order)
{
  if ( k == order.size() ) { out.push_back(v); return; }
  size_t ix = order[k];
  if ( s.blocks.count(ix) ) for ( unsigned x=get<0>(s.blocks.at(ix)); x<get<1>(s.blocks.at(ix)); ++x ) { v[ix] = raw[ix] = x; expand(s,k+1,v,raw,out,order); }
  else if ( s.sets.count(ix) ) for ( unsigned j=0; j<s.sets.at(ix).size(); ++j ) { raw[ix] = j; v[ix] = s.sets.at(ix)[j]; expand(s,k+1,v,raw,out,order); }
  else { auto & d = s.dependent.at(ix); for ( unsigned x : get<1>(d).at(raw[get<0>(d)]) ) { v[ix] = x; expand(s,k+1,v,raw,out,order); } }
}
static vector<Vec> members(const Spec & s)
{
  vector<size_t> order;
  for ( auto & x : s.blocks ) order.push_back(x.first);
  for ( auto & x : s.sets ) order.push_back(x.first);
  for ( auto & x : s.dependent ) order.push_back(x.first);       // after what they depend on
  vector<Vec> out; Vec v(s.length), raw(s.length);
  expand(s, 0, v, raw, out, order);
  std::sort(out.begin(), out.end());
  return out;
}

static Spec gen_spec(Case & c, bool with_package, uint64_t limit)
{
  Spec s;
  bool thin = c.chance(1,16);                  // many coordinates, most of them fixed
  s.length = thin ? 7 + c.pick(c.chance(1,4) ? 70 : 20) : 1 + c.pick(6);
  unsigned style = c.pick(4);                  // 0 mixed, 1 ranges mostly, 2 sets mostly, 3 one large range
  vector<size_t> free;
  uint64_t total = 1;
  size_t large = style == 3 ? c.pick(s.length) : s.length;
  for ( size_t ix=0; ix<s.length; ++ix ) {
    unsigned kind = ix == large ? 0 : c.weighted(style == 1 ? vector<unsigned>{6,1,1} : style == 2 ? vector<unsigned>{1,6,2} : vector<unsigned>{3,2,1});
    uint64_t room = std::max<uint64_t>(1, limit / total);
    if ( thin && ix != large && !c.chance(1,5) ) room = 1;
    if ( kind == 0 ) {
      uint64_t size = 1 + (ix == large ? c.pick(std::min<uint64_t>(room, limit > 100000 ? limit : 1500)) : c.pick(std::min<uint64_t>(room, 9)));
      uint64_t lo = c.chance(1,2) ? c.pick(8) : c.magnitude(30);
      s.blocks[ix] = std::make_tuple((unsigned)lo, (unsigned)(lo+size));
      total = mul_sat(total,size);
    } else if ( kind == 1 ) {
      unsigned size = 1 + c.pick(std::min<uint64_t>(room, 5));
      set<unsigned> vals; Vec v;
      while ( v.size() < size ) { unsigned x = c.chance(3,4) ? c.pick(30) : c.magnitude(31); if ( vals.insert(x).second ) v.push_back(x); else if ( vals.size() < size ) { while ( vals.count(x) ) ++x; vals.insert(x); v.push_back(x); } }
      s.sets[ix] = v; total = mul_sat(total,size);
    } else free.push_back(ix);
  }
  for ( size_t ix : free ) {                   // dependent on a set, or on a range if there are no packages
    vector<size_t> on;
    for ( auto & x : s.sets ) on.push_back(x.first);
    if ( !with_package ) for ( auto & x : s.blocks ) if ( get<1>(x.second)-get<0>(x.second) < 40 ) on.push_back(x.first);
    uint64_t room = std::max<uint64_t>(1, limit / total);
    if ( on.empty() ) { s.sets[ix] = {(unsigned)c.pick(9)}; continue; }
    size_t j = c.of(on);
    map<unsigned,Vec> m; size_t top = 1;
    auto gen_set = [&]() {
      Vec v; unsigned size = 1 + c.pick(std::min<uint64_t>(room,4)); unsigned x = c.pick(7);
      for ( unsigned k=0; k<size; ++k ) { v.push_back(x); x += 1 + c.pick(5); }
      if ( c.chance(1,3) ) std::reverse(v.begin(), v.end());
      top = std::max(top, v.size());
      return v;
    };
    if ( s.sets.count(j) ) for ( unsigned k=0; k<s.sets[j].size(); ++k ) m[k] = gen_set();
    else for ( unsigned k=get<0>(s.blocks[j]); k<get<1>(s.blocks[j]); ++k ) m[k] = gen_set();
    s.dependent[ix] = std::make_tuple(j, m);
    total = mul_sat(total, top);
  }
  return s;
}
static void describe(Case & c, const Spec & s)
{
  c.desc << "length " << s.length;
  for ( auto & x : s.blocks ) c.desc << " " << x.first << ":[" << get<0>(x.second) << "," << get<1>(x.second) << ")";
  for ( auto & x : s.sets ) c.desc << " " << x.first << ":{" << str(x.second) << "}";
  for ( auto & x : s.dependent ) {
    c.desc << " " << x.first << ":by " << get<0>(x.second) << "(";
    for ( auto & y : get<1>(x.second) ) c.desc << y.first << "->{" << str(y.second) << "}";
    c.desc << ")";
  }
}
static string show(const Vec & v) { return "(" + str(v) + ")"; }
static string show(const vector<Bounds> & b) { std::ostringstream os; for ( auto & x : b ) os << "[" << get<0>(x) << "," << get<1>(x) << ")"; return os.str(); }

static vector<Vec> enumerate(BlockIterator iter, uint64_t limit, const string & what)
{
  vector<Vec> out;
  for ( ; !iter.is_end(); iter.step() ) {
    out.push_back(iter.as_position());
    PBT_CHECK(out.size() <= limit, what << ": yields more than the " << limit << " vectors described");
  }
  iter.step();
  PBT_CHECK(iter.is_end(), what << ": stepping past the end revives the iteration");
  return out;
}
static void same(vector<Vec> got, const vector<Vec> & want, const string & what)
{
  std::sort(got.begin(), got.end());
  for ( size_t k=1; k<got.size(); ++k ) PBT_CHECK(got[k] != got[k-1], what << ": " << show(got[k]) << " occurs twice");
  for ( size_t k=0, j=0; k<want.size() || j<got.size(); ) {
    if ( j == got.size() || (k < want.size() && want[k] < got[j]) ) PBT_CHECK(false, what << ": " << show(want[k]) << " is missing");
    if ( k == want.size() || got[j] < want[k] ) PBT_CHECK(false, what << ": " << show(got[j]) << " does not belong to the described set");
    ++k; ++j;
  }
}
static bool inside(const vector<Bounds> & b, const Vec & v)
{
  for ( size_t k=0; k<v.size(); ++k ) if ( v[k] < get<0>(b[k]) || v[k] >= get<1>(b[k]) ) return false;
  return true;
}
static vector<Vec> box(const vector<Bounds> & b)
{
  Spec s; s.length = b.size();
  for ( size_t k=0; k<b.size(); ++k ) s.blocks[k] = b[k];
  return members(s);
}

PBT_PROPERTY(single_positions, 3)
{
  Spec s = gen_spec(c, false, 1500);
  describe(c, s);
  auto want = members(s);
  unsigned how = c.pick(3);
  bool only_blocks = s.sets.empty() && s.dependent.empty();
  BlockIterator iter = only_blocks && how == 0 ? [&]() { vector<Bounds> b; for ( auto & x : s.blocks ) b.push_back(x.second); return BlockIterator(b); }()
                     : how == 1 ? BlockIterator(s.length, s.blocks, 1, s.sets, s.dependent) : BlockIterator(s.length, s.blocks, s.sets, s.dependent);
  PBT_CHECK(iter.length() == s.length, "length is " << iter.length() << ": " << c.desc.str());
  same(enumerate(iter, want.size(), c.desc.str()), want, c.desc.str());
  if ( !s.dependent.empty() ) c.label("dependent sets");
  if ( !s.sets.empty() ) c.label("sets");
  if ( !s.blocks.empty() ) c.label("ranges");
  if ( want.size() > 1 ) c.nontrivial(c.desc.str());
}

PBT_PROPERTY(packages, 5)
{
  Spec s = gen_spec(c, true, c.chance(1,8) ? 20000 : c.chance(1,400) ? 140000 : 1500);
  describe(c, s);
  uint64_t total = 1; for ( auto & x : s.blocks ) total *= get<1>(x.second)-get<0>(x.second);
  uint64_t package;
  switch ( c.pick(5) ) {
    case 0: package = 1 + c.pick(12); break;
    case 1: package = std::max<int64_t>(1, (int64_t)total - 2 + c.pick(5)); break;
    case 2: package = std::max<uint64_t>(1, c.magnitude(32)); break;
    default: package = 1 + c.pick(2*total);
  }
  c.desc << " package size " << package;
  auto want = members(s);
  BlockIterator iter(s.length, s.blocks, package, s.sets, s.dependent);
  vector<Vec> all; size_t blocks = 0; bool multi = false;
  for ( ; !iter.is_end(); iter.step() ) {
    PBT_CHECK(++blocks <= want.size(), "more blocks than vectors: " << c.desc.str());
    auto b = iter.as_block();
    PBT_CHECK(b.size() == s.length, "block of wrong length: " << c.desc.str());
    uint64_t size = 1;
    for ( size_t k=0; k<s.length; ++k ) {
      PBT_CHECK(get<0>(b[k]) < get<1>(b[k]), "empty block " << show(b) << ": " << c.desc.str());
      size = mul_sat(size, get<1>(b[k])-get<0>(b[k]));
      if ( s.blocks.count(k) )
        PBT_CHECK(get<0>(b[k]) >= get<0>(s.blocks[k]) && get<1>(b[k]) <= get<1>(s.blocks[k]), "block " << show(b) << " leaves the range of coordinate " << k << ": " << c.desc.str());
      else
        PBT_CHECK(get<1>(b[k]) == get<0>(b[k])+1, "block " << show(b) << " covers several values of the set at coordinate " << k << ": " << c.desc.str());
    }
    PBT_CHECK(size <= package, "block " << show(b) << " contains " << size << " vectors: " << c.desc.str());
    PBT_CHECK(inside(b, iter.as_position()), "position " << show(iter.as_position()) << " is not in its block " << show(b) << ": " << c.desc.str());
    if ( size > 1 ) multi = true;
    auto in_box = box(b);
    all.insert(all.end(), in_box.begin(), in_box.end());
    PBT_CHECK(all.size() <= want.size(), "blocks overlap or leave the described set: " << c.desc.str());
    if ( blocks <= 12 || c.chance(1,16) ) {
      same(enumerate(BlockIterator(b), in_box.size(), "enumerating the bounds " + show(b)), in_box, "enumerating the bounds " + show(b));
      same(enumerate(iter.as_block_enumerator(), in_box.size(), "enumerator of the block " + show(b)), in_box, "enumerator of the block " + show(b) + ": " + c.desc.str());
    }
  }
  iter.step();
  PBT_CHECK(iter.is_end(), "stepping past the end revives the iteration: " << c.desc.str());
  same(all, want, "union of blocks: " + c.desc.str());
  if ( multi ) c.label("blocks with several vectors");
  if ( blocks > 1 ) c.label("several blocks");
  if ( multi && blocks > 1 && !s.sets.empty() ) c.label("sets and packages");
  if ( want.size() > 65536 ) c.label("more than 65536 vectors");
  if ( s.length > 16 ) c.label("more than 16 coordinates");
  if ( blocks > 1 ) c.nontrivial(c.desc.str());
}
