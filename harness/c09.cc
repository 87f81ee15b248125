// C09: texts of results and of records are lossless, canonical, and combine exactly.
#include "stores.hh"

using HyCu::CurveData::ExplicitRamificationHasseWeil;
typedef ExplicitRamificationHasseWeil::ValueType KeyValue;
typedef HyCu::StoreData::Count::ValueType CountValue;

static string text(const Key & k) { return str(k.first) + ";" + str(k.second); }
static string show_store(const shared_ptr<StoreInterface> & s) { std::ostringstream os; s->insert(os); return os.str(); }
static string text(const CountValue & v) { std::ostringstream os; os << v; return os.str(); }
static string text(const Int & v) { std::ostringstream os; os << v; return os.str(); }

static vector<Key> gen_keys(Case & c, unsigned n)
{
  vector<Key> ks;
  for ( unsigned k=0; k<n; ++k ) {
    if ( k && c.chance(1,2) ) {            // neighbours: same prefix, other sign, longer, shorter
      Key x = c.of(ks);
      switch ( c.pick(5) ) {
        case 0: x.second[c.pick(x.second.size())] *= -1; break;
        case 1: x.second.push_back((int)c.pick(5) - 2); break;
        case 2: if ( x.second.size() > 1 ) x.second.pop_back(); break;
        case 3: x.first.push_back(x.first.back()); break;
        default: { int & v = x.second[c.pick(x.second.size())]; v += v > 0 ? -1 : 1; }
      }
      ks.push_back(x);
    } else ks.push_back(gen_key(c));
  }
  return ks;
}

// several texts, lines in any order, keys repeated in and between texts
PBT_PROPERTY(results, 8)
{
  auto factory = create_store_factory(StoreType::EC);
  auto keys = gen_keys(c, 1 + c.sized(25));
  unsigned parts = 1 + c.pick(4);
  bool large = c.chance(1,300);                  // texts of many kilobytes
  if ( large ) keys = gen_keys(c, 200 + c.pick(400)), c.label("long texts");
  vector<string> texts; Results want; vector<std::pair<Key,Int>> lines;
  for ( unsigned k=0; k<parts; ++k ) {
    string t; unsigned n = large ? 300 + c.pick(1500) : c.sized(30);
    for ( unsigned j=0; j<n; ++j ) {
      Key key = c.of(keys); Int v = c.chance(1,30) ? Int(0) : gen_count(c);
      t += text(key) + ":" + text(v) + "\n";
      want[key] += v; lines.push_back({key,v});
    }
    texts.push_back(t);
  }
  auto store = factory->create();
  for ( auto & t : texts ) store->extract(std::stringstream(t));
  string got = show_store(store);
  for ( auto & t : texts ) c.desc << "<<" << t << ">> ";
  PBT_CHECK(got == text(want), "reading\n" << c.desc.str() << "gives\n" << got << "expected\n" << text(want));
  auto again = factory->create();
  again->extract(std::stringstream(got));
  PBT_CHECK(show_store(again) == got, "reading back\n" << got << "gives\n" << show_store(again));
  // the same lines, shuffled and distributed anew
  for ( unsigned k=lines.size(); k-->1; ) std::swap(lines[k], lines[c.pick(k+1)]);
  auto other = factory->create();
  string t;
  for ( auto & l : lines ) {
    t += text(l.first) + ":" + text(l.second) + "\n";
    if ( c.chance(1,4) ) { std::stringstream s(t); other->extract(s); t.clear(); }
  }
  other->extract(std::stringstream(t));
  PBT_CHECK(show_store(other) == got, "the lines of\n" << c.desc.str() << "in another order give\n" << show_store(other) << "instead of\n" << got);
  // partial results merged
  auto merged = factory->create();
  for ( unsigned k=texts.size(); k-->0; ) {
    auto part = factory->create(); part->extract(std::stringstream(texts[k]));
    merged->extract(std::stringstream(show_store(part)));
  }
  PBT_CHECK(show_store(merged) == got, "merging the parts of\n" << c.desc.str() << "gives\n" << show_store(merged) << "instead of\n" << got);
  // through the shared results
  if ( c.chance(1,3) ) {
    auto f = factory->create(); f->flush_static_store();
    for ( auto & x : texts ) { auto s = factory->create(); s->extract(std::stringstream(x)); s->flush_to_static_store(gen_block(c)); }
    auto out = f->flush_static_store();
    PBT_CHECK(get<1>(out) == got, "shared results\n" << get<1>(out) << "instead of\n" << got);
  }
  for ( auto & x : want ) { if ( x.second >> 64 != 0 ) c.label("count beyond 64 bit"); if ( x.second >> 32 != 0 ) c.label("count beyond 32 bit"); }
  if ( lines.size() > want.size() ) c.label("repeated keys");
  if ( want.size() ) c.nontrivial(c.desc.str());
}

PBT_PROPERTY(records, 5)
{
  Record a, b; unsigned n = c.chance(1,300) ? 500 + c.pick(3000) : c.sized(30), m = c.chance(1,2) ? 0 : c.sized(10);
  for ( unsigned k=0; k<n; ++k ) {
    Block x = gen_block(c, 10);
    if ( !a.empty() && c.chance(1,3) ) { x = *a.begin(); auto & y = x[c.pick(x.size())]; if ( get<1>(y) < 2147483647u ) get<1>(y) += 1; if ( c.chance(1,3) ) x.pop_back(); if ( x.empty() ) continue; }
    a.insert(x);
  }
  for ( unsigned k=0; k<m; ++k ) b.insert(c.chance(1,3) && !a.empty() ? *a.begin() : gen_block(c, 10));
  std::ostringstream os; FileStore::insert(os, a);
  string t = os.str();
  c.desc << t;
  PBT_CHECK(parse_record(t) == a, "record of\n" << text(a) << "is\n" << t);
  Record same; FileStore::extract(std::stringstream(t), same);
  PBT_CHECK(same == a, "reading the record\n" << t << "gives\n" << text(same));
  Record got = b, want = b; want.insert(a.begin(), a.end());
  FileStore::extract(std::stringstream(t), got);
  PBT_CHECK(got == want, "adding the record\n" << t << "to\n" << text(b) << "gives\n" << text(got));
  std::ostringstream os2; FileStore::insert(os2, got);
  std::ostringstream os3; FileStore::insert(os3, want);
  PBT_CHECK(os2.str() == os3.str(), "equal records have different texts");
  for ( auto & x : a ) {
    std::stringstream s; FileStore::insert(s, x); Block y; FileStore::extract(s, y);
    PBT_CHECK(x == y, "block " << text(x) << " is read back as " << text(y));
  }
  if ( a.size() ) c.nontrivial(c.desc.str());
}

// the values themselves: copies, sums, comparison, order
PBT_PROPERTY(values, 5)
{
  Int sum = 0; CountValue total, copy;
  vector<Int> vs; vector<CountValue> cs;
  unsigned n = 1 + c.pick(8);
  for ( unsigned k=0; k<n; ++k ) {
    Int v = gen_count(c); CountValue x(text(v));
    c.desc << v << " ";
    PBT_CHECK(text(x) == text(v), "count " << v << " is read as " << text(x));
    CountValue y(x); PBT_CHECK(text(y) == text(v) && y == x, "the copy of count " << v << " is " << text(y));
    CountValue z; z = y; z = x; PBT_CHECK(text(z) == text(v) && z == x, "the assignment of count " << v << " gives " << text(z));
    total += x; sum += v;
    PBT_CHECK(text(total) == text(sum), "sum of counts " << c.desc.str() << "is " << text(total));
    PBT_CHECK(text(x) == text(v), "adding changed the summand " << v);
    z += y; PBT_CHECK(text(z) == text(Int(2*v)) && text(x) == text(v), "doubling " << v << " gives " << text(z));
    vs.push_back(v); cs.push_back(x);
  }
  for ( unsigned j=0; j<n; ++j ) for ( unsigned k=0; k<n; ++k )
    PBT_CHECK((cs[j] == cs[k]) == (vs[j] == vs[k]), "equality of counts " << vs[j] << " and " << vs[k]);
  auto keys = gen_keys(c, 2 + c.pick(6));
  std::less<KeyValue> less;
  for ( auto & a : keys ) {
    KeyValue x(text(a)); std::ostringstream os; os << x;
    PBT_CHECK(os.str() == text(a) && x.ramification_type == a.first && x.hasse_weil_offsets == a.second, "key " << text(a) << " is read as " << os.str());
    for ( auto & b : keys ) {
      KeyValue y(b.first, b.second);
      PBT_CHECK(less(x,y) == (a < b), "order of the keys " << text(a) << " and " << text(b));
      PBT_CHECK((x == y) == (a == b), "equality of the keys " << text(a) << " and " << text(b));
    }
  }
  c.nontrivial();
}
