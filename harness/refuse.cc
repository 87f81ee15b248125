// Requests to the classes of the library, one per process: what it answers it prints, and then ends well.
//   refuse curve p r e0,e1,... op...     right hand side by exponents of coefficients ('z' for zero);
//                                        op: t:P:R (count with the table of F_{P^R}), n:E, z:E (naively)
//   refuse enumerate p r genus marked package
//   refuse range package lb:ub ...       (package 0: from the bounds)
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>

#include "curve.hh"
#include "curve_iterator.hh"
#include "block_iterator.hh"
#include "fq_element_table.hh"
#include "reduction_table.hh"
using namespace std;

static vector<string> split(const string & s, char sep)
{
  vector<string> v; string x; stringstream ss(s);
  while ( getline(ss, x, sep) ) v.push_back(x);
  return v;
}

int main(int argc, char ** argv)
{
  vector<string> a(argv+1, argv+argc);
  if ( a.at(0) == "curve" ) {
    unsigned p = stoul(a.at(1)), r = stoul(a.at(2));
    auto table = make_shared<FqElementTable>(p, r);
    vector<unsigned> c;
    for ( auto & s : split(a.at(3), ',') ) c.push_back(s == "z" ? table->zero_index() : stoul(s) % table->zero_index());
    Curve curve(table, c);
    for ( size_t k=4; k<a.size(); ++k ) {
      auto op = split(a[k], ':');
      unsigned ext;
      if ( op[0] == "t" ) { ReductionTable t(stoul(op[1]), ext = stoul(op[2])); curve.count(t); }
      else if ( op[0] == "n" ) curve.count_naive_nmod(ext = stoul(op[1]));
      else curve.count_naive_zech(ext = stoul(op[1]));
      printf("answered %zu: ", k-4);
      for ( auto & x : curve.number_of_points() ) printf("%u %u %u; ", x.first, get<0>(x.second), get<1>(x.second));
      printf("\n"); fflush(stdout);
    }
  }
  else if ( a.at(0) == "enumerate" ) {
    FqElementTable table(stoul(a.at(1)), stoul(a.at(2)));
    CurveIterator iter(table, stoul(a.at(3)), a.at(4) == "1", stoul(a.at(5)));
    unsigned n = 0;
    for ( ; n < 200 && !iter.is_end(); iter.step() ) { iter.as_block(); ++n; }
    printf("answered 0: %u\n", n); fflush(stdout);
  }
  else {
    vector<tuple<unsigned,unsigned>> bounds; map<size_t,tuple<unsigned,unsigned>> blocks;
    for ( size_t k=2; k<a.size(); ++k ) {
      auto b = split(a[k], ':');
      blocks[bounds.size()] = make_tuple(stoul(b[0]), stoul(b[1]));
      bounds.push_back(make_tuple(stoul(b[0]), stoul(b[1])));
    }
    unsigned package = stoul(a.at(1));
    BlockIterator iter = package ? BlockIterator(bounds.size(), blocks, package, {}, {}) : BlockIterator(bounds);
    unsigned n = 0;
    for ( ; n < 50 && !iter.is_end(); iter.step() ) { iter.as_position(); ++n; }
    printf("answered 0: %u\n", n); fflush(stdout);
  }
  return 0;
}
