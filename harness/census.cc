// Brute force census of squarefree right hand sides, independent of /repo.
// usage: census p r genus marked(0/1) L      prints degrees;offsets:count
#include "ref.hh"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mutex>
#include <thread>
using namespace ref;
typedef std::map<std::pair<std::vector<unsigned>,std::vector<long>>, unsigned long> Census;

int main(int argc, char ** argv)
{
  unsigned p = atoi(argv[1]), r = atoi(argv[2]), g = atoi(argv[3]), marked = atoi(argv[4]), L = atoi(argv[5]);
  pField F = field(p,r);
  std::vector<pField> E;
  for ( unsigned l=1; l<=L; ++l ) E.push_back(extension(F,l));
  Census all; std::mutex m;
  for ( unsigned n=2*g+1; n<=2*g+(marked?1:2); ++n ) {
    bool shift = n % p != 0;                       // x -> x+b removes the next to leading coefficient
    unsigned free = shift ? n-1 : n;
    unsigned long nmb = 1; for ( unsigned k=0; k<free; ++k ) nmb *= F->q;
    unsigned long w = (F->q-1)/2 * (shift ? F->q : 1);
    unsigned T = std::max(1u, std::thread::hardware_concurrency());
    std::vector<std::thread> ts;
    for ( unsigned t=0; t<T; ++t ) ts.emplace_back([&,t]() {
      Census part;
      for ( unsigned long code=t; code<nmb; code+=T ) for ( unsigned c=0; c<2; ++c ) {
        poly f(n+1,0); unsigned long x = code;
        for ( unsigned k=0; k<free; ++k ) { f[k] = x % F->q; x /= F->q; }
        f[n] = c ? F->nonsquare() : 1;
        if ( !squarefree(*F,f) ) continue;
        std::vector<long> off;
        for ( unsigned l=1; l<=L; ++l ) { auto pts = count_points(*E[l-1], f); off.push_back((long)E[l-1]->q + 1 - (long)pts.first - (long)pts.second); }
        part[{ramification(*F,f), off}] += w;
      }
      std::lock_guard<std::mutex> lock(m);
      for ( auto & y : part ) all[y.first] += y.second;
    });
    for ( auto & t : ts ) t.join();
  }
  for ( auto & y : all ) {
    const char * s = "";
    for ( auto d : y.first.first ) { printf("%s%u", s, d); s = ","; }
    s = ";";
    for ( auto d : y.first.second ) { printf("%s%ld", s, d); s = ","; }
    printf(":%lu\n", y.second);
  }
}
