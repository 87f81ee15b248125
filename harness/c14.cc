// C14: configurations and messages survive transport; documented forms of configurations are accepted.
#include "stores.hh"
#include "config/config_node.hh"
#include "utils/serialization_tuple.hh"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>

static unsigned gen_unsigned(Case & c) { return c.chance(1,4) ? (unsigned)c.magnitude(32) : 1 + c.pick(50); }

static string gen_path(Case & c)
{
  static const vector<string> special = {"q7g2", "results/q7g2", "~", "null", "true", "12", "1.5", "a: b", "# x", "'quoted'", "\"q\"", "a b", " lead", "trail ",
    "&x", "*x", "- a", "[a]", "{a: b}", "%x", "@x", "`x`", "!x", "|", ">", "?", "x,y", "\xc3\xa4\xe2\x82\xac", "..", "./a/../b", "a//b", "a\\b", "yes", "0x10", ".hidden", "/abs/path", "tab\tx", "=", "<<", "a\nb", "Prime: 3"};
  if ( c.chance(1,2) ) return c.of(special);
  string s; unsigned n = 1 + (c.chance(1,30) ? c.pick(3000) : c.sized(20));
  for ( unsigned k=0; k<n; ++k ) s += c.chance(1,6) ? '/' : (char)(c.chance(1,3) ? 33 + c.pick(94) : 'a' + c.pick(26));
  return s;
}
static ConfigNode gen_config(Case & c)
{
  ConfigNode n;
  n.prime = c.chance(1,3) ? gen_prime(c, 1, 139000) : gen_unsigned(c);
  n.prime_exponent = gen_unsigned(c);
  n.genus = gen_unsigned(c);
  n.with_marked_point = c.chance(1,2);
  n.count_exponent = c.chance(1,2) ? n.genus : gen_unsigned(c);
  n.result_path = gen_path(c);
  n.package_size = gen_unsigned(c);
  return n;
}
static string show(const ConfigNode & n)
{
  std::ostringstream os;
  os << n.prime << "^" << n.prime_exponent << " genus " << n.genus << (n.with_marked_point ? " marked" : "") << " count " << n.count_exponent
     << " package " << n.package_size << " path '" << n.result_path.native() << "'";
  return os.str();
}
static bool same(const ConfigNode & a, const ConfigNode & b)
{
  return a.prime == b.prime && a.prime_exponent == b.prime_exponent && a.genus == b.genus && a.with_marked_point == b.with_marked_point
    && a.count_exponent == b.count_exponent && a.package_size == b.package_size && a.result_path.native() == b.result_path.native();
}
static ConfigNode garbage(Case & c)        // what a node holds before it is filled
{
  ConfigNode n; n.prime = 4711; n.prime_exponent = 99; n.genus = 77; n.with_marked_point = c.chance(1,2); n.count_exponent = 55; n.package_size = 33; n.result_path = "old";
  return n;
}

PBT_PROPERTY(yaml_round_trip, 3)
{
  vector<ConfigNode> cs; unsigned n = 1 + (c.chance(1,150) ? c.pick(120) : c.pick(4));
  YAML::Node all;
  for ( unsigned k=0; k<n; ++k ) { cs.push_back(gen_config(c)); all["Moduli"].push_back(YAML::convert<ConfigNode>::encode(cs.back())); c.desc << show(cs.back()) << "; "; }
  YAML::Emitter em; em << all;
  string t = c.chance(1,2) ? YAML::Dump(all) : string(em.c_str());
  auto back = YAML::Load(t);
  PBT_CHECK(back["Moduli"].size() == n, "wrong number of entries in\n" << t);
  for ( unsigned k=0; k<n; ++k ) {
    ConfigNode got = back["Moduli"][k].as<ConfigNode>();
    PBT_CHECK(same(got, cs[k]), show(cs[k]) << " written as\n" << t << "\nis read as " << show(got));
    ConfigNode into = garbage(c);
    PBT_CHECK(YAML::convert<ConfigNode>::decode(back["Moduli"][k], into) && same(into, cs[k]), show(cs[k]) << " is read as " << show(into));
    if ( cs[k].with_marked_point ) c.label("marked point");
    if ( cs[k].count_exponent != cs[k].genus ) c.label("count exponent differs from the genus");
    YAML::Node direct; direct = cs[k];
    ConfigNode d = direct.as<ConfigNode>();
    PBT_CHECK(same(d, cs[k]), show(cs[k]) << " is converted to " << show(d));
  }
  c.nontrivial(c.desc.str());
}

template<class O, class I, class T> static T transport(const T & x, T into)
{
  std::stringstream s;
  { O o(s); o << x; }
  { I i(s); i >> into; }
  return into;
}

PBT_PROPERTY(serialisation, 3)
{
  ConfigNode n = gen_config(c);
  c.desc << show(n);
  typedef boost::archive::binary_oarchive BO; typedef boost::archive::binary_iarchive BI;
  typedef boost::archive::text_oarchive TO; typedef boost::archive::text_iarchive TI;
  auto a = transport<BO,BI>(n, garbage(c)), b = transport<TO,TI>(n, garbage(c));
  PBT_CHECK(same(n,a), show(n) << " arrives as " << show(a));
  PBT_CHECK(same(n,b), show(n) << " arrives as " << show(b));
  Block block = gen_block(c, 12);
  PBT_CHECK((transport<BO,BI>(block, gen_block(c)) == block) && (transport<TO,TI>(block, gen_block(c)) == block), "block " << text(block) << " is not transported");
  vector<Block> blocks; unsigned k = c.chance(1,60) ? c.pick(300) : c.sized(12);
  while ( k-- ) blocks.push_back(gen_block(c));
  PBT_CHECK((transport<BO,BI>(blocks, vector<Block>()) == blocks) && (transport<TO,TI>(blocks, vector<Block>(2)) == blocks), "blocks are not transported");
  Results r; unsigned m = c.sized(6); while ( m-- ) r[gen_key(c)] = gen_count(c);
  tuple<string,string> t(text(Record(blocks.begin(), blocks.end())), text(r));
  PBT_CHECK((transport<BO,BI>(t, tuple<string,string>("x","y")) == t) && (transport<TO,TI>(t, tuple<string,string>()) == t), "texts are not transported");
  tuple<unsigned,unsigned> u(gen_unsigned(c), gen_unsigned(c));
  PBT_CHECK((transport<BO,BI>(u, tuple<unsigned,unsigned>()) == u) && (transport<TO,TI>(u, tuple<unsigned,unsigned>()) == u), "numbers are not transported");
  tuple<unsigned,string,vector<tuple<unsigned,unsigned>>,int> w(gen_unsigned(c), gen_path(c), gen_block(c), -(int)c.pick(1000));
  auto w0 = w; get<0>(w0) = 0; get<1>(w0) = ""; get<2>(w0).clear(); get<3>(w0) = 5;
  PBT_CHECK((transport<BO,BI>(w, w0) == w) && (transport<TO,TI>(w, w0) == w), "a mixed tuple is not transported");
  c.nontrivial();
}

// the documented forms, written by hand
static string field(Case & c, const string & name, const string & value, bool flow)
{
  string n = c.chance(1,8) ? "\"" + name + "\"" : name;
  return n + ":" + (!flow && c.chance(1,6) ? "   " : " ") + value;
}
static string quoted(const string & s) { string r = "'"; for ( char ch : s ) { r += ch; if ( ch == '\'' ) r += ch; } return r + "'"; }

PBT_PROPERTY(documented_forms, 4)
{
  unsigned n = c.chance(1,2) ? 1 : c.chance(1,60) ? 1 + c.pick(80) : 1 + c.pick(4);
  bool single = n == 1 && c.chance(1,2), flow = c.chance(1,5), type_first = c.chance(1,2), with_type = c.chance(1,2);
  string t, type = "StoreType: EC\n"; vector<ConfigNode> want;
  vector<string> single_fields;
  for ( unsigned k=0; k<n; ++k ) {
    ConfigNode x = gen_config(c);
    do x.result_path = gen_path(c); while ( x.result_path.native().find('\n') != string::npos && (c.discard(), true) );
    vector<string> fs = {
      field(c,"Prime",std::to_string(x.prime),flow), field(c,"PrimeExponent",std::to_string(x.prime_exponent),flow), field(c,"Genus",std::to_string(x.genus),flow),
      field(c,"PackageSize",std::to_string(x.package_size),flow), field(c,"ResultPath",quoted(x.result_path.native()),flow) };
    if ( c.chance(1,2) ) { static const vector<string> yes = {"true","True","yes","on"}, no = {"false","False","no","off"}; fs.push_back(field(c,"WithMarkedPoint",x.with_marked_point ? c.of(yes) : c.of(no),flow)); }
    else { x.with_marked_point = false; c.label("WithMarkedPoint left out"); }
    if ( c.chance(1,2) ) fs.push_back(field(c,"CountExponent",std::to_string(x.count_exponent),flow));
    else { x.count_exponent = x.genus; c.label("CountExponent left out"); }
    if ( c.chance(1,6) ) fs.push_back(field(c,"Comment","text",flow));
    for ( unsigned j=fs.size(); j-->1; ) std::swap(fs[j], fs[c.pick(j+1)]);
    if ( single ) { if ( with_type ) fs.insert(fs.begin() + c.pick(fs.size()+1), "StoreType: EC"); for ( auto & f : fs ) t += f + "\n"; }
    else if ( flow ) { t += "  - {"; for ( auto & f : fs ) t += f + (&f == &fs.back() ? "" : ", "); t += "}\n"; }
    else for ( auto & f : fs ) { t += (&f == &fs[0] ? "  - " : "    ") + f + (c.chance(1,10) ? "  # comment" : "") + "\n"; if ( c.chance(1,12) ) t += "\n"; }
    want.push_back(x);
  }
  if ( !single ) { t = "Moduli:\n" + t; if ( with_type ) t = type_first ? type + t : t + type; }
  c.desc << t;
  auto yaml = YAML::Load(t);
  PBT_CHECK(bool(yaml["Moduli"]) == !single, "section Moduli in\n" << t);
  for ( unsigned k=0; k<n; ++k ) {
    ConfigNode got = single ? yaml.as<ConfigNode>() : yaml["Moduli"][k].as<ConfigNode>();
    PBT_CHECK(same(got, want[k]), "entry " << k << " of\n" << t << "is read as " << show(got) << "\ninstead of " << show(want[k]));
    string root = "/base/" + gen_path(c);
    ConfigNode moved = got; moved.prepend_output_path(root);
    ConfigNode rest = moved; rest.result_path = got.result_path;
    PBT_CHECK(same(rest, got), "prepending the output path changes other fields");
    if ( got.result_path.is_relative() )
      PBT_CHECK(moved.result_path == boost::filesystem::path(root) / got.result_path && moved.result_path.native().compare(0, root.size(), root) == 0,
          "result path '" << got.result_path.native() << "' under '" << root << "' becomes '" << moved.result_path.native() << "'");
  }
  c.nontrivial(t);
}
