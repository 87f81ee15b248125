// Property-based testing engine: choice sequences, replay, forked shrinking, sharded running.
//
// A case is a function of a sequence of choices, each a number in [0,n).  While searching the choices come
// from a generator seeded by (VERIF_SEED, case index); while replaying and shrinking from a list (values are
// clipped to the admissible range, 0 when the list is used up), so every edited list is a valid case and a
// smaller list is a simpler case.  Used as a libFuzzer target the choices come from the fuzzer's bytes.
#ifndef PBT_HH
#define PBT_HH

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

inline uint64_t mix64(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string & s)
{
  uint64_t h = 1469598103934665603ULL;
  for ( unsigned char c : s ) { h ^= c; h *= 1099511628211ULL; }
  return mix64(h);
}
inline double now()
{
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9*t.tv_nsec;
}

static const size_t max_choices = 1 << 18;
struct Shared            // mmap'ed: what is being executed right now, readable after a crash
{
  uint64_t case_index;
  double started;        // 0: no case is running
  uint64_t nmb_choices;
  uint64_t nmb_done;
  uint64_t choices[max_choices];
};

class Case
{
  public:
    std::ostringstream desc;                 // human readable description of the case
    std::map<std::string,uint64_t> labels;
    std::vector<uint64_t> record;
    bool is_nontrivial = false;
    std::string key;

    Case(uint64_t seed, Shared * shared) : mode(0), state(seed), shared(shared) { this->start(); }
    Case(const std::vector<uint64_t> & list, Shared * shared) : mode(1), list(list), shared(shared) { this->start(); }
    Case(const uint8_t * data, size_t size, Shared * shared) : mode(2), data(data), size(size), shared(shared) { this->start(); }

    uint64_t pick(uint64_t n)                // [0,n)
    {
      uint64_t v = 0;
      if ( n == 0 ) n = 1;
      if ( mode == 0 ) v = n == 1 ? 0 : this->next() % n;
      else if ( mode == 1 ) { if ( pos < list.size() ) v = std::min(list[pos], n-1); ++pos; }
      else if ( n > 1 ) {
        uint64_t range = n-1;
        for ( ; range && pos < size; range >>= 8 ) v = (v << 8) | data[pos++];
        v %= n;
      }
      record.push_back(v);
      if ( shared && shared->nmb_choices < max_choices ) {
        shared->choices[shared->nmb_choices] = v;
        ++shared->nmb_choices;
      }
      if ( record.size() > max_choices ) throw Discard();
      return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + (int64_t)this->pick(hi-lo+1); }
    bool chance(unsigned num, unsigned den)  // shrinks towards false
    { return this->pick(den) >= den - num; }
    template<class T> const T & of(const std::vector<T> & v) { return v.at(this->pick(v.size())); }
    size_t weighted(const std::vector<unsigned> & w)
    {
      unsigned sum = 0; for ( auto x : w ) sum += x;
      uint64_t v = this->pick(sum);
      for ( size_t ix=0; ix<w.size(); ++ix ) { if ( v < w[ix] ) return ix; v -= w[ix]; }
      return 0;
    }
    // sizes: small ones mostly, seldom up to max
    uint64_t sized(uint64_t max)
    {
      switch ( this->weighted({6,3,1}) ) {
        case 0: return this->pick(std::min<uint64_t>(max,4)+1);
        case 1: return this->pick(std::min<uint64_t>(max,16)+1);
        default: return this->pick(max+1);
      }
    }
    // numbers of any magnitude, with the neighbourhoods of powers of two well represented
    uint64_t magnitude(unsigned bits)
    {
      unsigned b = this->pick(bits+1);
      if ( b == 0 ) return 0;
      uint64_t top = b >= 64 ? ~0ULL : (1ULL << b) - 1;
      switch ( this->weighted({4,2,1,1}) ) {
        case 0: return this->pick(top);
        case 1: return top;                       // 2^b - 1
        case 2: return top >> 1;
        default: return (top >> 1) + 1;           // 2^(b-1)
      }
    }
    void label(const std::string & s) { ++labels[s]; }
    void nontrivial(const std::string & k = "") { is_nontrivial = true; key = k; }
    void discard() { throw Discard(); }
    uint64_t hash() const
    {
      uint64_t h = 7;
      if ( key.empty() ) for ( auto v : record ) h = mix64(h ^ v) + v;
      else h = hash_str(key);
      return h;
    }

  private:
    int mode;
    uint64_t state = 0;
    std::vector<uint64_t> list;
    const uint8_t * data = nullptr;
    size_t size = 0, pos = 0;
    Shared * shared;

    uint64_t next() { state += 0x9e3779b97f4a7c15ULL; return mix64(state); }
    void start() { if ( shared ) shared->nmb_choices = 0; }
};

struct Sub { std::string name; std::function<void(Case &)> fn; unsigned weight; };
inline std::vector<Sub> & subs() { static std::vector<Sub> s; return s; }
struct Register { Register(const std::string & n, std::function<void(Case &)> f, unsigned w) { subs().push_back({n,f,w}); } };
#define PBT_PROPERTY(name, weight) \
  static void name(pbt::Case & c); \
  static pbt::Register register_##name(#name, name, weight); \
  static void name(pbt::Case & c)

#define PBT_CHECK(cond, msg) \
  do { if ( !(cond) ) { std::ostringstream os__; os__ << msg; throw pbt::Fail(os__.str()); } } while (0)

inline std::string quote(const std::string & s)
{
  std::string r = "\"";
  for ( unsigned char ch : s ) {
    if ( ch == '"' || ch == '\\' ) { r += '\\'; r += ch; }
    else if ( ch == '\n' ) r += "\\n";
    else if ( ch < 32 || ch > 126 ) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
    else r += ch;
  }
  return r + "\"";
}

inline size_t choose_sub(uint64_t seed, uint64_t index)
{
  unsigned sum = 0;
  for ( auto & s : subs() ) sum += s.weight;
  uint64_t v = mix64(seed * 1000003 + index * 77 + 5) % sum;
  for ( size_t ix=0; ix<subs().size(); ++ix ) { if ( v < subs()[ix].weight ) return ix; v -= subs()[ix].weight; }
  return 0;
}

// 0: holds (or discarded), 1: fails
inline int execute(size_t sub, Case & c, std::string & message, bool & discarded)
{
  discarded = false;
  try { subs()[sub].fn(c); }
  catch ( const Discard & ) { discarded = true; return 0; }
  catch ( const Fail & e ) { message = e.what(); return 1; }
  catch ( const std::exception & e ) { message = std::string("unexpected exception: ") + e.what(); return 1; }
  return 0;
}

struct Replay { std::string sub; std::vector<uint64_t> choices; };
inline Replay read_replay(const std::string & file)
{
  Replay r; std::ifstream in(file); std::string line;
  while ( getline(in, line) ) {
    std::istringstream is(line); std::string word; is >> word;
    if ( word == "sub" ) is >> r.sub;
    else if ( word == "choices" ) { uint64_t v; while ( is >> v ) r.choices.push_back(v); }
  }
  return r;
}
inline size_t sub_index(const std::string & name)
{
  for ( size_t ix=0; ix<subs().size(); ++ix ) if ( subs()[ix].name == name ) return ix;
  std::cerr << "no such sub-property: " << name << std::endl; exit(3);
}
inline void write_replay(const std::string & file, const std::string & sub, const std::vector<uint64_t> & choices,
                         const std::string & message, const std::string & desc)
{
  std::ofstream out(file);
  out << "sub " << sub << "\nchoices";
  for ( auto v : choices ) out << " " << v;
  out << "\n# " ;
  for ( char ch : message ) { out << ch; if ( ch == '\n' ) out << "# "; }
  out << "\n# case: ";
  for ( char ch : desc ) { out << ch; if ( ch == '\n' ) out << "# "; }
  out << "\n";
}

inline Shared * map_shared(const std::string & file)
{
  int fd = open(file.c_str(), O_RDWR|O_CREAT, 0600);
  if ( fd < 0 || ftruncate(fd, sizeof(Shared)) ) { perror("state file"); exit(3); }
  void * p = mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if ( p == MAP_FAILED ) { perror("mmap"); exit(3); }
  return (Shared*)p;
}

// run one candidate in a child; true if it fails (check failure, signal, nonzero exit, or timeout)
inline bool fails_forked(size_t sub, std::vector<uint64_t> & choices, double timeout, std::string & message, std::string & desc, Shared * sh)
{
  int fds[2]; if ( pipe(fds) ) return false;
  pid_t pid = fork();
  if ( pid == 0 ) {
    close(fds[0]);
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
    Case c(choices, sh);
    std::string msg; bool disc;
    int rc = execute(sub, c, msg, disc);
    std::string text = msg + '\x01' + c.desc.str();
    if ( text.size() > 60000 ) text.resize(60000);
    if ( rc && write(fds[1], text.data(), text.size()) < 0 ) {}
    _exit(rc ? 1 : 0);
  }
  close(fds[1]);
  fcntl(fds[0], F_SETFL, O_NONBLOCK);
  double t0 = now(); int status = 0; bool timed = false; std::string text;
  char buf[65536];
  double nap = 2e-4;
  while ( true ) {
    ssize_t n;
    while ( (n = read(fds[0], buf, sizeof buf)) > 0 ) text.append(buf, n);
    pid_t w = waitpid(pid, &status, WNOHANG);
    if ( w == pid ) break;
    if ( now() - t0 > timeout ) { kill(pid, SIGKILL); waitpid(pid, &status, 0); timed = true; break; }
    usleep((useconds_t)(nap*1e6)); nap = std::min(nap*1.5, 0.02);
  }
  ssize_t n; while ( (n = read(fds[0], buf, sizeof buf)) > 0 ) text.append(buf, n);
  close(fds[0]);
  bool failed = timed || !WIFEXITED(status) || WEXITSTATUS(status) != 0;
  if ( failed ) {
    choices.assign(sh->choices, sh->choices + sh->nmb_choices);   // what was really used
    size_t sep = text.find('\x01');
    if ( timed ) message = "the case did not end within the time limit";
    else if ( !WIFEXITED(status) ) message = std::string("terminated by signal ") + strsignal(WTERMSIG(status));
    else if ( sep == std::string::npos ) message = "abnormal exit " + std::to_string(WEXITSTATUS(status)) + " (sanitizer report or exit in the code under test)";
    else { message = text.substr(0,sep); desc = text.substr(sep+1); }
  }
  return failed;
}

inline bool simpler(const std::vector<uint64_t> & a, const std::vector<uint64_t> & b)
{
  if ( a.size() != b.size() ) return a.size() < b.size();
  return a < b;
}

inline void shrink(size_t sub, std::vector<uint64_t> & best, double budget, double timeout, std::string & message, std::string & desc, Shared * sh)
{
  double end = now() + budget;
  auto attempt = [&](std::vector<uint64_t> cand) {
    if ( now() > end || !simpler(cand, best) ) return false;
    std::string m, d;
    if ( !fails_forked(sub, cand, timeout, m, d, sh) ) return false;
    while ( !cand.empty() && cand.back() == 0 ) cand.pop_back();
    if ( simpler(cand, best) ) { best = cand; message = m; if ( !d.empty() ) desc = d; return true; }
    return false;
  };
  bool progress = true;
  while ( progress && now() < end ) {
    progress = false;
    for ( size_t len = std::max<size_t>(best.size()/2,1); len >= 1; len /= 2 )
      for ( size_t ix = 0; ix + len <= best.size() && now() < end; ) {
        auto cand = best; cand.erase(cand.begin()+ix, cand.begin()+ix+len);
        if ( attempt(cand) ) progress = true;
        else {
          bool zero = true;
          auto z = best; for ( size_t jx=ix; jx<ix+len; ++jx ) { if ( z[jx] ) zero = false; z[jx] = 0; }
          if ( !zero && attempt(z) ) progress = true;
          ix += len;
        }
      }
    for ( size_t ix = 0; ix < best.size() && now() < end; ++ix ) {
      uint64_t lo = 0;               // smallest value known not to fail + 1
      while ( ix < best.size() && best[ix] > lo && now() < end ) {
        uint64_t mid = lo + (best[ix]-lo)/2;
        auto cand = best; cand[ix] = mid;
        if ( attempt(cand) ) progress = true; else lo = mid + 1;
      }
      if ( ix + 1 < best.size() && best[ix] > 0 ) {      // decrease and delete the following
        auto cand = best; cand[ix] -= 1; cand.erase(cand.begin()+ix+1);
        if ( attempt(cand) ) progress = true;
      }
    }
  }
}

inline int pbt_main(int argc, char ** argv)
{
  std::map<std::string,std::string> o;
  for ( int ix=1; ix+1<argc; ix+=2 ) o[argv[ix]] = argv[ix+1];
  auto num = [&](const char * k, double d) { return o.count(k) ? atof(o[k].c_str()) : d; };
  Shared * sh = map_shared(o.count("--state") ? o["--state"] : "/dev/shm/pbt-" + std::to_string(getpid()));
  if ( !o.count("--state") ) unlink(("/dev/shm/pbt-" + std::to_string(getpid())).c_str());

  if ( o.count("--replay") ) {
    auto r = read_replay(o["--replay"]);
    Case c(r.choices, sh);
    std::string msg; bool disc;
    int rc = execute(sub_index(r.sub), c, msg, disc);
    std::cout << (rc ? "FAILS: " + msg : disc ? std::string("discarded") : std::string("holds")) << "\n" << c.desc.str() << std::endl;
    _exit(rc);
  }
  if ( o.count("--shrink") ) {
    auto r = read_replay(o["--shrink"]);
    size_t sub = sub_index(r.sub);
    std::string message, desc;
    double timeout = num("--timeout", 60);
    if ( !fails_forked(sub, r.choices, timeout, message, desc, sh) ) { std::cout << "does not reproduce" << std::endl; return 4; }
    shrink(sub, r.choices, num("--budget", 20), timeout, message, desc, sh);
    write_replay(o["--out"], r.sub, r.choices, message, desc);
    std::cout << message << std::endl;
    return 1;
  }

  uint64_t seed = strtoull(o.count("--seed") ? o["--seed"].c_str() : "1", 0, 10);
  if ( o.count("--which-index") ) {
    if ( o.count("--raw") ) { std::cout << subs().at(strtoull(o["--which-index"].c_str(), 0, 10)).name << std::endl; return 0; }
    std::cout << subs()[choose_sub(seed, strtoull(o["--which-index"].c_str(), 0, 10))].name << std::endl;
    return 0;
  }
  uint64_t shard = (uint64_t)num("--shard", 0), shards = (uint64_t)num("--shards", 1), cases = (uint64_t)num("--cases", 1000);
  double deadline = now() + num("--deadline", 3600);
  std::string only = o.count("--sub") ? o["--sub"] : "";
  uint64_t evaluations = 0, discarded = 0;
  std::set<uint64_t> hashes;
  std::map<std::string,uint64_t> labels, by_sub;
  std::vector<std::string> samples;
  std::map<std::string,double> time_by_sub;
  int result = 0; std::string failure;
  for ( uint64_t ix = shard; ix < cases && now() < deadline; ix += shards ) {
    size_t sub = choose_sub(seed, ix);
    if ( !only.empty() && subs()[sub].name != only ) continue;
    sh->case_index = ix; sh->started = now();
    Case c(mix64(seed * 0x10001 + mix64(ix)), sh);
    std::string msg; bool disc;
    double t0 = now();
    int rc = execute(sub, c, msg, disc);
    time_by_sub[subs()[sub].name] += now() - t0;
    if ( o.count("--slow") && now() - t0 > atof(o["--slow"].c_str()) )
      std::cerr << now() - t0 << " s: " << subs()[sub].name << " " << c.desc.str().substr(0,300) << std::endl;
    sh->started = 0; ++sh->nmb_done;
    if ( rc ) {
      result = 1;
      failure = "{\"index\": " + std::to_string(ix) + ", \"sub\": " + quote(subs()[sub].name) + ", \"message\": " + quote(msg) + ", \"case\": " + quote(c.desc.str()) + "}";
      if ( o.count("--replay-out") ) write_replay(o["--replay-out"], subs()[sub].name, c.record, msg, c.desc.str());
      break;
    }
    if ( disc ) { ++discarded; continue; }
    ++evaluations; ++by_sub[subs()[sub].name];
    for ( auto & l : c.labels ) labels[l.first] += l.second;
    if ( c.is_nontrivial && hashes.insert(c.hash()).second ) {
      uint64_t k = hashes.size();
      if ( samples.size() < 4 || (k & (k-1)) == 0 ) {
        std::string s = subs()[sub].name + ": " + c.desc.str();
        if ( s.size() > 700 ) s = s.substr(0,700) + "...";
        if ( samples.size() < 12 ) samples.push_back(s);
      }
    }
  }
  std::ofstream out(o["--out"]);
  out << "{\"evaluations\": " << evaluations << ", \"discarded\": " << discarded << ", \"labels\": {";
  const char * s = "";
  for ( auto & l : labels ) { out << s << quote(l.first) << ": " << l.second; s = ", "; }
  out << "}, \"by_sub\": {"; s = "";
  for ( auto & l : by_sub ) { out << s << quote(l.first) << ": " << l.second; s = ", "; }
  out << "}, \"time_by_sub\": {"; s = "";
  for ( auto & l : time_by_sub ) { out << s << quote(l.first) << ": " << l.second; s = ", "; }
  out << "}, \"samples\": ["; s = "";
  for ( auto & l : samples ) { out << s << quote(l); s = ", "; }
  out << "], \"hashes\": ["; s = "";
  for ( auto h : hashes ) { out << s << "\"" << std::hex << h << std::dec << "\""; s = ", "; }
  out << "], \"failure\": " << (failure.empty() ? "null" : failure) << "}" << std::endl;
  out.close();
  _exit(result);
}

} // namespace pbt

#ifdef PBT_LIBFUZZER
// first byte: sub-property; the rest: choices.  A failing case is written as a replay file.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t * data, size_t size)
{
  static pbt::Shared * sh = getenv("PBT_FUZZ_STATE") ? pbt::map_shared(getenv("PBT_FUZZ_STATE")) : nullptr;
  if ( size < 2 ) return 0;
  size_t sub = data[0] % pbt::subs().size();
  pbt::Case c(data+1, size-1, sh);
  if ( sh ) { sh->case_index = sub; ++sh->nmb_done; }
  std::string msg; bool disc;
  if ( pbt::execute(sub, c, msg, disc) ) {
    std::cerr << "FAILS: " << msg << std::endl;
    abort();
  }
  return 0;
}
#else
int main(int argc, char ** argv) { return pbt::pbt_main(argc, argv); }
#endif

#endif
