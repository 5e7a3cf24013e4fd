// C10: sparse patterns and matrices behave like a map from position to value for every history.
#include "bench_sparse.hpp"

using namespace scn;

namespace
{
template< typename BENCH >
void run()
{
  LeakCheck leaks;
  int const n = sim::chance( 1, 5 ) ? sim::range( 2, 3 ) : 1;
  callers( n, []( int const t )
  {
    BENCH bench( t );
    while( sim::more( 24 ) )
    {
      bench.step();
      bench.verify();
    }
  } );
  leaks.check( "the matrices were destroyed" );
}
} // namespace

void scenarioWarmup() {}

void scenario()
{
  switch( sim::draw( 10 ) )
  {
    case 0: run< SparseBench< int, int, I, false > >(); break;
    case 9: run< SparseBench< double, int, short, true > >(); break;
    case 8: run< SparseBench< Triple, int, int, true > >(); break;
    case 1: run< SparseBench< int, std::int8_t, int, false > >(); break;
    case 2: run< SparseBench< std::int64_t, I, I, true > >(); break;
    case 3: run< SparseBench< double, int, int, true > >(); break;
    case 4: run< SparseBench< double, unsigned, I, true > >(); break;
    case 5: case 6: run< SparseBench< Tracked, int, I, true > >(); break;
    default: run< SparseBench< std::string, std::int8_t, I, true > >(); break;
  }
}
