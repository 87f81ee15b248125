// curve_tool p c_0 c_1 ... : report about y^2 = c_0 + c_1 x + ... over F_p by definition
#include "ref.hh"
#include <cstdio>
#include <cstdlib>
int main(int argc, char ** argv)
{
  uint32_t p = atoi(argv[1]);
  auto F = ref::prime_field(p);
  ref::poly f;
  for ( int k=2; k<argc; ++k ) f.push_back(F->of_int(atoll(argv[k])));
  ref::trim(f);
  if ( ref::deg(f) < 3 || !ref::squarefree(*F, f) ) { puts("outside"); return 0; }
  int g = (ref::deg(f)-1)/2;
  printf("polynomial");
  for ( auto c : f ) printf(" %u", c);
  printf("\npoints");
  std::vector<long long> o;
  for ( int l=1; l<=g; ++l ) {
    auto E = ref::extension(F, l);
    auto n = ref::count_points(*E, f);
    printf(" %llu %llu", (unsigned long long)n.first, (unsigned long long)n.second);
    o.push_back((long long)E->q + 1 - (long long)(n.first + n.second));
  }
  printf("\noffsets");
  for ( auto x : o ) printf(" %lld", x);
  printf("\nramification");
  for ( auto d : ref::ramification(*F, f) ) printf(" %u", d);
  printf("\n");
}
