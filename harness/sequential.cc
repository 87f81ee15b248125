// sequential p r L < record: the results of the recorded blocks, computed one after another
// sequential blocks p r g marked package: the blocks of an enumeration
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>

#include "block_iterator.hh"
#include "curve.hh"
#include "curve_iterator.hh"
#include "fq_element_table.hh"
#include "reduction_table.hh"
#include "store/store_factory.hh"
using namespace std;

int main(int argc, char ** argv)
{
  if ( argc == 7 ) {
    FqElementTable fq(atoi(argv[2]), atoi(argv[3]));
    for ( CurveIterator iter(fq, atoi(argv[4]), atoi(argv[5]), strtoul(argv[6], nullptr, 10)); !iter.is_end(); iter.step() ) {
      for ( auto & x : iter.as_block() ) cout << get<0>(x) << " " << get<1>(x) << " ";
      cout << "\n";
    }
    return 0;
  }
  unsigned p = atoi(argv[1]), r = atoi(argv[2]), L = atoi(argv[3]);
  auto table = make_shared<FqElementTable>(p, r);
  vector<shared_ptr<ReductionTable>> reductions;
  for ( unsigned l=1; l<=L; ++l ) reductions.push_back(make_shared<ReductionTable>(p, l*r));
  auto store = create_store_factory(StoreType::EC)->create();
  // a line '=' asks for the results so far
  for ( string line; getline(cin, line); ) {
    if ( line == "=" ) { cout << get<1>(store->flush_static_store()) << "=" << endl; continue; }
    istringstream s(line); vuu_block block; unsigned a, b;
    while ( s >> a >> b ) block.push_back(make_tuple(a, b));
    for ( BlockIterator iter(block); !iter.is_end(); iter.step() ) {
      Curve curve(table, iter.as_position());
      if ( !curve.has_squarefree_rhs() ) continue;
      for ( auto t : reductions ) curve.count(t);
      store->register_curve(curve);
    }
    store->flush_to_static_store(block);
  }
}
