// C07: a sorted array behaves like an ordered set for every history.
#include "bench_sorted.hpp"

using namespace scn;

namespace
{
template< typename BENCH >
void run()
{
  LeakCheck leaks;
  int const n = sim::chance( 1, 5 ) ? sim::range( 2, 3 ) : 1;
  callers( n, []( int const t )
  {
    BENCH bench( t );
    while( sim::more( 20 ) )
    {
      bench.step();
      bench.verify();
    }
  } );
  leaks.check( "the arrays were destroyed" );
}
} // namespace

void scenarioWarmup() {}

void scenario()
{
  switch( sim::draw( 10 ) )
  {
    case 0: run< HeapSortedBench< std::int64_t > >(); break;
    case 9: run< HeapSortedBench< double, short > >(); break;
    case 8: run< HeapSortedBench< Triple > >(); break;
    case 1: run< HeapSortedBench< int, int > >(); break;
    case 2: run< HeapSortedBench< double > >(); break;
    case 3: case 4: run< HeapSortedBench< Tracked > >(); break;
    case 5: case 6: run< HeapSortedBench< std::string > >(); break;
    default: run< StackSortedBench< std::int64_t, int > >(); break;
  }
}
