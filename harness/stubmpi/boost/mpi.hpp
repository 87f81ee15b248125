// A stand-in for Boost.MPI: the processes are forked by the environment and exchange messages through pipes.
// Messages between two processes arrive in order and are matched by source and tag, as MPI guarantees; nothing else is
// guaranteed: with STUB_SYNC=1 sends do not return before the message has been received, with STUB_LAZY=n messages are
// noticed with a delay of up to n polls.   STUB_N is the number of processes.
#ifndef STUB_BOOST_MPI
#define STUB_BOOST_MPI

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/optional.hpp>
#include <boost/serialization/deque.hpp>
#include <boost/serialization/list.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/set.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>

#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace boost { namespace mpi {

namespace threading { enum level { single, funneled, serialized, multiple }; }
static const int any_source = -1, any_tag = -1;

namespace stub {

struct Message { int tag; std::string data; uint64_t id; };
struct State {
  int n = 1, rank = 0; std::vector<int> in, out; std::vector<pid_t> children;
  std::vector<std::string> buffer; std::vector<std::deque<Message>> queue; std::vector<uint64_t> acked, sent; std::vector<bool> closed;
  bool sync = false; unsigned lazy = 0; uint64_t rng = 1; unsigned turn = 0;
};
inline State & state() { static State * s = new State; return *s; }

inline void fatal(const char * what) { fprintf(stderr, "MPI: rank %d: %s\n", state().rank, what); for ( auto c : state().children ) kill(c, SIGKILL); _exit(74); }
inline void idle()
{
  std::this_thread::sleep_for(std::chrono::microseconds(100));
  static unsigned n = 0;
  timespec t = { 0, ++n < 3000 ? 30000 : 100000 }; syscall(SYS_nanosleep, &t, 0);
}
inline void put(int peer, const std::string & frame);
// takes in what has arrived
inline void drain()
{
  auto & s = state();
  for ( int k=0; k<s.n; ++k ) {
    if ( k == s.rank || s.closed[k] ) continue;
    if ( s.lazy ) { s.rng = s.rng*6364136223846793005ull + 1442695040888963407ull; if ( (s.rng >> 33) % (s.lazy+1) ) continue; }
    char buf[65536];
    while ( true ) {
      ssize_t r = read(s.in[k], buf, sizeof buf);
      if ( r > 0 ) { s.buffer[k].append(buf, r); continue; }
      if ( r == 0 || (errno != EAGAIN && errno != EINTR) ) s.closed[k] = true;
      break;
    }
    auto & b = s.buffer[k];
    while ( b.size() >= 16 ) {
      int32_t tag; uint32_t len; uint64_t id;
      memcpy(&tag, b.data(), 4); memcpy(&len, b.data()+4, 4); memcpy(&id, b.data()+8, 8);
      if ( b.size() < 16 + (size_t)len ) break;
      if ( tag == -7 ) s.acked[k] = id;
      else s.queue[k].push_back({tag, b.substr(16, len), id});
      b.erase(0, 16 + len);
    }
  }
}
inline std::string frame(int32_t tag, uint64_t id, const std::string & data)
{
  uint32_t len = data.size(); std::string f(16, 0);
  memcpy(&f[0], &tag, 4); memcpy(&f[4], &len, 4); memcpy(&f[8], &id, 8);
  return f + data;
}
inline void put(int peer, const std::string & f)
{
  auto & s = state(); size_t done = 0;
  while ( done < f.size() ) {
    ssize_t w = write(s.out[peer], f.data()+done, f.size()-done);
    if ( w > 0 ) { done += w; continue; }
    if ( w < 0 && errno != EAGAIN && errno != EINTR ) fatal("the other process has ended");
    drain(); idle();
  }
}

} // stub

class status {
  public:
    status(int s = 0, int t = 0) : s(s), t(t) {}
    int source() const { return s; }
    int tag() const { return t; }
    int error() const { return 0; }
    bool cancelled() const { return false; }
  private: int s, t;
};

class environment {
  public:
    explicit environment(bool = true) { start(); }
    explicit environment(threading::level, bool = true) { start(); }
    environment(int &, char ** &, bool = true) { start(); }
    environment(int &, char ** &, threading::level, bool = true) { start(); }
    ~environment()
    {
      auto & s = stub::state();
      bool bad = false;
      for ( auto c : s.children ) {
        int st = 0;
        while ( true ) {
          pid_t w = waitpid(c, &st, WNOHANG);
          if ( w == c ) break;
          if ( w < 0 && errno != EINTR ) { st = 0; break; }
          stub::drain(); stub::idle();
        }
        if ( st ) { fprintf(stderr, "MPI: a process ended with status %x\n", st); bad = true; }
      }
      s.children.clear();
      if ( bad ) _exit(73);
    }
    static void abort(int rc) { for ( auto c : stub::state().children ) kill(c, SIGKILL); _exit(rc ? rc : 1); }
    static bool initialized() { return true; }
    static bool finalized() { return false; }
    static threading::level thread_level() { return threading::funneled; }
    static bool is_main_thread() { return true; }
  private:
    void start()
    {
      auto & s = stub::state();
      const char * e = getenv("STUB_N"); s.n = e ? atoi(e) : 1;
      e = getenv("STUB_SYNC"); s.sync = e && atoi(e);
      e = getenv("STUB_LAZY"); s.lazy = e ? atoi(e) : 0;
      e = getenv("SCHED_SEED"); s.rng = e ? atoll(e)*2 + 1 : 1;
      signal(SIGPIPE, SIG_IGN);
      // in[a][b]: what a receives from b
      std::vector<std::vector<int>> in(s.n, std::vector<int>(s.n, -1)), out = in;
      for ( int a=0; a<s.n; ++a ) for ( int b=0; b<s.n; ++b ) if ( a != b ) {
        int p[2]; if ( pipe2(p, O_CLOEXEC|O_NONBLOCK) ) stub::fatal("pipe");
        in[a][b] = p[0]; out[b][a] = p[1];
      }
      pid_t parent = getpid();
      for ( int k=1; k<s.n; ++k ) {
        pid_t c = fork();
        if ( c < 0 ) stub::fatal("fork");
        if ( c == 0 ) {
          prctl(PR_SET_PDEATHSIG, SIGKILL); if ( getppid() != parent ) _exit(75);
          s.rank = k; s.children.clear(); s.rng += 2*k; break;
        }
        s.children.push_back(c);
      }
      for ( int a=0; a<s.n; ++a ) if ( a != s.rank ) for ( int b=0; b<s.n; ++b ) if ( a != b ) { close(in[a][b]); close(out[a][b]); }
      s.in = in[s.rank]; s.out = out[s.rank];
      s.buffer.resize(s.n); s.queue.resize(s.n); s.acked.resize(s.n); s.sent.resize(s.n); s.closed.resize(s.n);
    }
};

class communicator {
  public:
    int rank() const { return stub::state().rank; }
    int size() const { return stub::state().n; }

    template<class T> void send(int dest, int tag, const T & value) const
    {
      std::ostringstream o; { boost::archive::binary_oarchive a(o, boost::archive::no_header); a << value; }
      post(dest, tag, o.str());
    }
    void send(int dest, int tag) const { post(dest, tag, ""); }

    template<class T> status recv(int source, int tag, T & value) const
    {
      status st; std::string d = take(source, tag, st);
      std::istringstream i(d); boost::archive::binary_iarchive a(i, boost::archive::no_header); a >> value;
      return st;
    }
    status recv(int source, int tag) const { status st; take(source, tag, st); return st; }

    boost::optional<status> iprobe(int source = any_source, int tag = any_tag) const
    {
      stub::drain();
      int k, m; if ( !find(source, tag, k, m) ) { stub::idle(); return {}; }
      return status(k, stub::state().queue[k][m].tag);
    }
    status probe(int source = any_source, int tag = any_tag) const
    {
      while ( true ) {
        stub::drain();
        int k, m; if ( find(source, tag, k, m) ) return status(k, stub::state().queue[k][m].tag);
        check(source); stub::idle();
      }
    }
    void barrier() const
    {
      if ( rank() == 0 ) { for ( int k=1; k<size(); ++k ) recv(k, -9); for ( int k=1; k<size(); ++k ) post(k, -9, "", false); }
      else { post(0, -9, "", false); recv(0, -9); }
    }

    // any tag below stands for internal messages
    void post(int dest, int tag, const std::string & data, bool may_wait = true) const
    {
      auto & s = stub::state();
      if ( dest < 0 || dest >= s.n || dest == s.rank ) stub::fatal("send to a process that does not exist");
      uint64_t id = ++s.sent[dest];
      stub::put(dest, stub::frame(tag, id, data));
      if ( s.sync && may_wait )
        while ( s.acked[dest] < id ) { stub::drain(); if ( s.acked[dest] >= id ) break; if ( s.closed[dest] ) stub::fatal("the other process has ended"); stub::idle(); }
    }
    std::string take(int source, int tag, status & st) const
    {
      auto & s = stub::state();
      while ( true ) {
        int k, m;
        if ( find(source, tag, k, m) ) {
          auto msg = s.queue[k][m]; s.queue[k].erase(s.queue[k].begin() + m);
          if ( s.sync && msg.tag >= 0 ) stub::put(k, stub::frame(-7, msg.id, ""));
          st = status(k, msg.tag);
          return msg.data;
        }
        stub::drain();
        if ( find(source, tag, k, m) ) continue;
        check(source); stub::idle();
      }
    }

  private:
    bool find(int source, int tag, int & k, int & m) const
    {
      auto & s = stub::state();
      for ( int x=0; x<s.n; ++x ) {
        k = (x + s.turn) % s.n;
        if ( source != any_source && source != k ) continue;
        for ( m=0; m<(int)s.queue[k].size(); ++m ) if ( s.queue[k][m].tag == tag || (tag == any_tag && s.queue[k][m].tag >= 0) ) { ++s.turn; return true; }
      }
      return false;
    }
    void check(int source) const
    {
      auto & s = stub::state();
      if ( source != any_source ) { if ( source < 0 || source >= s.n || source == s.rank ) stub::fatal("receive from a process that does not exist"); if ( s.closed[source] ) stub::fatal("the other process has ended"); return; }
      for ( int k=0; k<s.n; ++k ) if ( k != s.rank && s.closed[k] && (k == 0 || s.n == 2) ) stub::fatal("the other process has ended");
    }
};

template<class T> void broadcast(const communicator & c, T & value, int root)
{
  if ( c.rank() == root ) {
    std::ostringstream o; { boost::archive::binary_oarchive a(o, boost::archive::no_header); a << value; }
    for ( int k=0; k<c.size(); ++k ) if ( k != root ) c.post(k, -8, o.str(), false);
  }
  else {
    status st; std::istringstream i(c.take(root, -8, st)); boost::archive::binary_iarchive a(i, boost::archive::no_header); a >> value;
  }
}

}}
#endif
