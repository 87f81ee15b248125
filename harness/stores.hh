// Models of stores and records, shared by C08, C09, C10.
#ifndef STORES_HH
#define STORES_HH
#include "common.hh"
#include <boost/multiprecision/cpp_int.hpp>
#include "block_iterator.hh"
#include "store/curve_data.hh"
#include "store/file_store.hh"
#include "store/store.hh"
#include "store/store_data.hh"
#include "store/store_factory.hh"

typedef boost::multiprecision::cpp_int Int;
typedef std::pair<vector<unsigned>,vector<int>> Key;
typedef map<Key,Int> Results;
typedef vector<tuple<unsigned,unsigned>> Block;
typedef set<Block> Record;

inline string text(const Results & r)
{
  std::ostringstream os;
  for ( auto & x : r ) os << str(x.first.first) << ";" << str(x.first.second) << ":" << x.second << "\n";
  return os.str();
}
inline string text(const Block & b)
{
  std::ostringstream os;
  for ( auto & x : b ) os << get<0>(x) << " " << get<1>(x) << " ";
  return os.str();
}
inline string text(const Record & r)
{
  std::ostringstream os;
  for ( auto & b : r ) os << text(b) << "\n";
  return os.str();
}
// strict reading of the documented forms
inline vector<string> split(const string & s, char sep)
{
  vector<string> parts(1);
  for ( char ch : s ) if ( ch == sep ) parts.emplace_back(); else parts.back() += ch;
  return parts;
}
template<class T> T number(const string & s, const string & line)
{
  size_t k = s.size() && s[0] == '-' ? 1 : 0;
  PBT_CHECK(k < s.size() && s.find_first_not_of("0123456789", k) == string::npos, "'" << s << "' is not a number in line '" << line << "'");
  return T(s);
}
template<> inline int number<int>(const string & s, const string & line) { return (int)number<Int>(s,line); }
inline Results parse_results(const string & t)
{
  Results r;
  if ( t.empty() ) return r;
  PBT_CHECK(t.back() == '\n', "results do not end with a newline");
  auto lines = split(t,'\n'); lines.pop_back();
  for ( auto & line : lines ) {
    auto colon = split(line,':');
    PBT_CHECK(colon.size() == 2, "line '" << line << "' is not of the form degrees;offsets:count");
    auto semi = split(colon[0],';');
    PBT_CHECK(semi.size() == 2, "line '" << line << "' is not of the form degrees;offsets:count");
    Key k;
    for ( auto & x : split(semi[0],',') ) k.first.push_back(number<int>(x,line));
    for ( auto & x : split(semi[1],',') ) k.second.push_back(number<int>(x,line));
    PBT_CHECK(!r.count(k), "two lines for the key of '" << line << "'");
    r[k] = number<Int>(colon[1],line);
  }
  return r;
}
inline Record parse_record(const string & t)
{
  Record r;
  if ( t.empty() ) return r;
  PBT_CHECK(t.back() == '\n', "record does not end with a newline");
  auto lines = split(t,'\n'); lines.pop_back();
  for ( auto & line : lines ) {
    std::istringstream is(line); Block b; string lo, hi;
    while ( is >> lo ) {
      PBT_CHECK(bool(is >> hi), "odd number of bounds in line '" << line << "'");
      b.push_back(std::make_tuple((unsigned)number<Int>(lo,line), (unsigned)number<Int>(hi,line)));
    }
    PBT_CHECK(r.insert(b).second, "block '" << line << "' is recorded twice");
  }
  return r;
}
inline Results & add(Results & a, const Results & b) { for ( auto & x : b ) a[x.first] += x.second; return a; }

inline Int gen_count(Case & c)
{
  switch ( c.weighted({4,2,2,1}) ) {
    case 0: return 1 + c.pick(1000);
    case 1: return Int(c.magnitude(64)) + 1;
    case 2: return (Int(1) << c.pick(140)) + c.pick(3);
    default: { Int v = 1; unsigned n = 1 + c.pick(8); for ( unsigned k=0; k<n; ++k ) v = (v << 64) + c.magnitude(64); return v; }
  }
}
inline Key gen_key(Case & c)
{
  Key k;
  unsigned n = 1 + c.pick(7), m = 1 + c.pick(5);
  switch ( c.weighted({60,6,3,1}) ) {           // long lists
    case 1: n = 1 + c.pick(24); break;
    case 2: n = 1 + c.pick(70); m = 1 + c.pick(20); break;
    case 3: n = 1 + c.pick(300); m = 1 + c.pick(300); break;
    default: break;
  }
  for ( unsigned j=0; j<n; ++j ) k.first.push_back(1 + (c.chance(1,8) ? c.pick(40) : c.pick(4)));
  std::sort(k.first.begin(), k.first.end());
  for ( unsigned j=0; j<m; ++j ) {
    int v = c.chance(1,6) ? (int)c.magnitude(31) : (int)c.pick(12);
    k.second.push_back(c.chance(1,2) ? -v : v);
  }
  return k;
}
inline Block gen_block(Case & c, unsigned max_length = 8)
{
  Block b; unsigned n = 1 + c.pick(max_length);
  if ( c.chance(1,60) ) n = 1 + c.pick(90);
  for ( unsigned k=0; k<n; ++k ) {
    unsigned lo = c.chance(1,6) ? c.magnitude(30) : c.pick(12);
    unsigned hi = lo + 1 + (c.chance(1,6) ? c.magnitude(30) : c.pick(12));
    b.push_back(std::make_tuple(lo, std::min(hi, 2147483647u))); // bounds are read as int

  }
  return b;
}
#endif
