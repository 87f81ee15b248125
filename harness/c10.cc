// C10: histories of opening result folders and saving into them, against a model of the folders.
#include "stores.hh"
#include <boost/filesystem.hpp>
#include <random>
namespace fs = boost::filesystem;

// file names are drawn from random_device; here it repeats itself often, so that names collide
static uint64_t device_state = 1, device_calls = 0, device_pool = 4;
unsigned int std::random_device::_M_getval()
{
  uint64_t v = pbt::mix64(device_state += 0x9e37);
  return ++device_calls % 64 < 40 ? pbt::mix64(v % device_pool) : v;
}

static string read_file(const fs::path & p)
{
  std::ifstream in(p.native(), std::ios::binary);
  std::stringstream s; s << in.rdbuf(); return s.str();
}
static void write_file(const fs::path & p, const string & t) { std::ofstream(p.native(), std::ios::binary) << t; }

struct Folder
{
  fs::path path;
  map<string,string> files;             // every file which must be there, with its contents
  Record recorded, unsure;              // unsure: recorded once, but the record was cut off since
  map<string,Record> records;           // record files and the blocks they hold
};
struct Handle { size_t folder; shared_ptr<FileStore> store; Record recorded, unsure; };

static ConfigNode config_of(const fs::path & p)
{
  ConfigNode n; n.prime = 3; n.prime_exponent = 1; n.genus = 1; n.with_marked_point = false; n.count_exponent = 1; n.package_size = 10;
  n.result_path = p; return n;
}

static string files_of(const Folder & f)
{
  std::ostringstream os;
  for ( auto & x : f.files ) os << x.first << "(" << x.second.size() << ") ";
  return os.str();
}

// the folder holds what the model says; returns what else is there
static map<string,string> check_folder(const Folder & f, const string & when)
{
  map<string,string> others;
  std::set<string> found;
  for ( fs::directory_iterator it(f.path), end; it != end; ++it ) {
    if ( !fs::is_regular_file(it->path()) ) continue;
    string name = it->path().filename().native(), t = read_file(it->path());
    auto x = f.files.find(name);
    if ( x == f.files.end() ) { others[name] = t; continue; }
    found.insert(name);
    PBT_CHECK(x->second == t, when << ": file " << name << " was altered from\n" << x->second << "to\n" << t);
  }
  for ( auto & x : f.files ) PBT_CHECK(found.count(x.first), when << ": file " << x.first << " has disappeared");
  return others;
}

static Block near(Case & c, const Record & r)      // a block which differs little from a recorded one
{
  auto it = r.begin(); std::advance(it, c.pick(r.size()));
  Block b = *it;
  switch ( c.pick(5) ) {
    case 0: if ( b.size() > 1 ) b.pop_back(); break;
    case 1: b.push_back(std::make_tuple(0u,1u)); break;
    case 2: { auto & hi = get<1>(b[c.pick(b.size())]); if ( hi < 2147483647u ) ++hi; break; }
    case 3: { auto & x = b.back(); get<1>(x) = get<1>(x)/10; if ( get<1>(x) <= get<0>(x) ) get<1>(x) = get<0>(x)+1; break; }
    default: break;
  }
  return b;
}

PBT_PROPERTY(histories, 110)
{
  static const vector<string> names = {"results", "two words", "a.hycu_record", "deep", "r\xc3\xa4tsel", "-n", "x.y"};
  char tmpl[] = "c10-XXXXXX";
  fs::path root = fs::absolute(mkdtemp(tmpl));
  struct Cleanup { fs::path p; ~Cleanup() { boost::system::error_code e; fs::remove_all(p, e); } } cleanup{root};
  device_state = c.pick(1u << 30); device_calls = 0; device_pool = 1 + c.pick(4);
  vector<Folder> folders(1 + c.pick(3));
  for ( size_t k=0; k<folders.size(); ++k ) {
    folders[k].path = root / (std::to_string(k) + c.of(names));
    if ( c.chance(1,3) && k ) folders[k].path = folders[0].path / ("sub" + std::to_string(k));
    fs::create_directories(folders[k].path);
    if ( c.chance(1,8) ) {               // reached by a link
      fs::path real = folders[k].path; folders[k].path = root / ("link" + std::to_string(k));
      fs::create_directory_symlink(real, folders[k].path); c.label("linked folder");
    }
  }
  vector<Handle> handles;
  vector<Block> pool;
  unsigned steps = 2 + c.sized(30), saves = 0, collisions = 0, orphans = 0;
  auto open = [&](size_t k) {
    Handle h; h.folder = k; h.recorded = folders[k].recorded; h.unsure = folders[k].unsure;
    h.store = make_shared<FileStore>(config_of(folders[k].path));
    handles.push_back(h);
  };
  auto check_handle = [&](const Handle & h) {
    Record queries(h.recorded.begin(), h.recorded.end());
    for ( auto & b : pool ) queries.insert(b);
    for ( unsigned k=0; k<4 && !h.recorded.empty(); ++k ) queries.insert(near(c, h.recorded));
    for ( unsigned k=0; k<4 && !h.unsure.empty(); ++k ) queries.insert(near(c, h.unsure));
    queries.insert(Block());
    for ( auto & b : h.unsure ) for ( size_t n=0; n<b.size(); ++n ) queries.insert(Block(b.begin(), b.begin()+n));
    for ( auto & b : queries ) {
      bool got = h.store->contains(b);
      if ( h.recorded.count(b) ) PBT_CHECK(got, "block " << text(b) << "was saved, but is not reported; folder: " << files_of(folders[h.folder]));
      else if ( !h.unsure.count(b) ) PBT_CHECK(!got, "block " << text(b) << "was never saved, but is reported; folder: " << files_of(folders[h.folder]));
    }
  };
  for ( unsigned step=0; step<steps; ++step ) {
    size_t k = c.pick(folders.size()); Folder & f = folders[k];
    switch ( c.weighted({3,6,2,2,1}) ) {
      case 0: open(k); c.desc << "open " << k << "; "; check_handle(handles.back()); break;
      case 1: {                          // save through a handle of this folder
        Handle * h = nullptr;
        for ( auto & x : handles ) if ( x.folder == k && (!h || c.chance(1,2)) ) h = &x;
        if ( !h ) { open(k); h = &handles.back(); }
        Record r; unsigned n = c.sized(8);
        for ( unsigned j=0; j<n; ++j ) { Block b = !pool.empty() && c.chance(1,4) ? c.of(pool) : gen_block(c,7); r.insert(b); pool.push_back(b); }
        if ( c.chance(1,12) ) for ( unsigned j=0; j<2000; ++j ) { Block b; for ( unsigned i=0; i<6; ++i ) b.push_back(std::make_tuple(j+i, j+2*i+1)); r.insert(b); }
        Results s; unsigned m = c.sized(6);
        for ( unsigned j=0; j<m; ++j ) s[gen_key(c)] += gen_count(c);
        h->store->save(std::make_tuple(text(r), text(s)));
        ++saves; c.desc << "save into " << k << " blocks [" << (r.size() > 20 ? string("many") : text(r)) << "]; ";
        auto others = check_folder(f, "after saving");
        unsigned records = 0;
        for ( auto & x : others ) {
          fs::path p(x.first);
          if ( p.extension() != ".hycu_record" ) continue;
          ++records;
          PBT_CHECK(x.second == text(r), "record file " << x.first << " holds\n" << x.second << "instead of\n" << text(r));
          string sn = p.stem().native() + ".hycu_store";
          PBT_CHECK(others.count(sn), "no new result file of the same stem for " << x.first);
          PBT_CHECK(others.at(sn) == text(s), "result file " << sn << " holds\n" << others.at(sn) << "instead of\n" << text(s));
          f.records[x.first] = r;
        }
        PBT_CHECK(records == 1, records << " new record files after one save; folder: " << files_of(f));
        for ( auto & x : others ) f.files[x.first] = x.second;
        f.recorded.insert(r.begin(), r.end());
        if ( device_calls > 6 * saves ) ++collisions;
        break;
      }
      case 2: {                          // something unrelated
        Block b = gen_block(c,5); pool.push_back(b); string t = text(b) + "\n"; Record bs{b};
        static const vector<string> stray = {"notes.txt", "record", "x.hycu_record.bak", "y.hycu_records", ".hycu_recor", "z.hycu_store", "hycu_record", "9.hycu_record.tmp", "w.HYCU_RECORD"};
        if ( c.chance(1,5) ) {
          fs::path d = f.path / ("dir" + std::to_string(step) + ".hycu_record");
          fs::create_directories(d); write_file(d / "1.hycu_record", t); write_file(d / "1.hycu_store", "");
          c.desc << "directory " << d.filename() << " in " << k << "; "; break;
        }
        if ( c.chance(1,5) && !f.records.empty() ) {   // a record is moved elsewhere and linked
          auto it = f.records.begin(); std::advance(it, c.pick(f.records.size()));
          fs::path from = f.path / it->first, to = root / ("away" + std::to_string(step));
          fs::rename(from, to); fs::create_symlink(to, from);
          c.desc << "link " << it->first << " in " << k << "; "; c.label("linked record"); break;
        }
        string name = c.of(stray);
        if ( c.chance(1,2) ) {           // results of a run which died before recording them, under a name likely to be drawn
          const Folder & g = c.of(folders);
          if ( g.records.empty() ) break;
          auto it = g.records.begin(); std::advance(it, c.pick(g.records.size()));
          name = fs::path(it->first).stem().native() + ".hycu_store"; ++orphans;
        }
        if ( f.files.count(name) ) break;
        f.files[name] = c.chance(1,3) ? string("\0\xff 7:", 5) : t;
        write_file(f.path / name, f.files[name]);
        c.desc << "file " << name << " in " << k << "; "; break;
      }
      case 3: {                          // a record is cut off
        if ( f.records.empty() ) break;
        auto it = f.records.begin(); std::advance(it, c.pick(f.records.size()));
        string & t = f.files.at(it->first);
        if ( c.chance(1,3) ) {           // or lost, and its results stay
          string name = it->first; fs::remove(f.path / name);
          c.desc << "lose " << name << " in " << k << "; "; c.label("lost record"); ++orphans;
          f.recorded.clear(); f.records.erase(it); f.files.erase(name);
          for ( auto & x : f.records ) f.recorded.insert(x.second.begin(), x.second.end());
          break;
        }
        if ( t.empty() ) break;
        t.resize(c.pick(t.size())); write_file(f.path / it->first, t);
        f.unsure.insert(it->second.begin(), it->second.end());   // whole lines may still count
        f.recorded.clear();
        string name = it->first; f.records.erase(name);
        for ( auto & x : f.records ) f.recorded.insert(x.second.begin(), x.second.end());
        c.desc << "cut " << name << " to " << t.size() << " bytes in " << k << "; ";
        c.label("cut record");
        break;
      }
      default: if ( !handles.empty() ) check_handle(c.of(handles));
    }
    for ( size_t j=0; j<folders.size(); ++j ) {
      auto others = check_folder(folders[j], "folder " + std::to_string(j));
      PBT_CHECK(others.empty(), "unexpected file " << others.begin()->first << " in folder " << j);
    }
  }
  for ( size_t k=0; k<folders.size(); ++k ) { open(k); check_handle(handles.back()); }
  if ( orphans ) c.label("unrecorded results in the way of names");
  for ( auto & h : handles ) check_handle(h);
  if ( collisions ) c.label("names drawn again");
  if ( saves ) c.nontrivial();
  if ( folders.size() > 1 ) c.label("several folders");
}

// folders which many runs have saved into
PBT_PROPERTY(crowded, 1)
{
  char tmpl[] = "c10-XXXXXX";
  fs::path root = fs::absolute(mkdtemp(tmpl));
  struct Cleanup { fs::path p; ~Cleanup() { boost::system::error_code e; fs::remove_all(p, e); } } cleanup{root};
  device_state = c.pick(1u << 30); device_calls = 0; device_pool = 1 + c.pick(4);
  unsigned saves = 40 + c.pick(400);
  Record recorded; map<string,unsigned> texts; Results sum;
  auto store = make_shared<FileStore>(config_of(root));
  for ( unsigned k=0; k<saves; ++k ) {
    if ( c.chance(1,40) ) store = make_shared<FileStore>(config_of(root));
    Record r; unsigned n = c.pick(4);
    for ( unsigned j=0; j<n; ++j ) r.insert(gen_block(c,4));
    Results s; s[gen_key(c)] += 1 + k;
    store->save(std::make_tuple(text(r), text(s)));
    recorded.insert(r.begin(), r.end()); ++texts[text(r)]; add(sum, s);
  }
  c.desc << saves << " saves of " << recorded.size() << " blocks";
  Results got; unsigned records = 0, results = 0;
  for ( fs::directory_iterator it(root), end; it != end; ++it ) {
    string t = read_file(it->path());
    if ( it->path().extension() == ".hycu_record" ) {
      ++records;
      PBT_CHECK(texts[t] > 0, "record " << it->path().filename() << " holds what was not saved (or not as often)\n" << t);
      --texts[t];
    } else if ( it->path().extension() == ".hycu_store" ) { ++results; add(got, parse_results(t)); }
  }
  PBT_CHECK(records == saves && results == saves, saves << " saves leave " << records << " records and " << results << " results");
  PBT_CHECK(got == sum, "the results of " << saves << " saves do not add up");
  FileStore reopened(config_of(root));
  for ( auto & b : recorded ) PBT_CHECK(reopened.contains(b), "block " << text(b) << "of one of " << saves << " saves is not reported");
  for ( unsigned k=0; k<30 && !recorded.empty(); ++k ) { Block b = near(c, recorded); PBT_CHECK(reopened.contains(b) == (recorded.count(b) != 0), "block " << text(b) << "after " << saves << " saves"); }
  c.nontrivial();
}
