// C05: a one dimensional array behaves like a vector for every history.
#include "bench_array.hpp"

using namespace scn;

namespace
{
template< typename BENCH >
void run()
{
  LeakCheck leaks;
  int const n = sim::chance( 1, 5 ) ? sim::range( 2, 3 ) : 1;
  callers( n, []( int const t )
  {
    BENCH bench( t );
    while( sim::more( 24 ) )
    {
      bench.step();
      bench.verify();
    }
  } );
  leaks.check( "the arrays were destroyed" );
}
} // namespace

void scenarioWarmup() {}

void scenario()
{
  switch( sim::draw( 14 ) )
  {
    case 0: run< HeapArrayBench< std::int64_t > >(); break;
    case 1: run< HeapArrayBench< int, int > >(); break;
    case 2: run< HeapArrayBench< double > >(); break;
    case 3: case 4: run< HeapArrayBench< Tracked > >(); break;
    case 5: run< HeapArrayBench< Tracked, int > >(); break;
    case 6: case 7: run< HeapArrayBench< std::string > >(); break;
    case 8: run< HeapArrayBench< Triple > >(); break;
    case 9: run< HeapArrayBench< int > >(); break;
    case 12: run< HeapArrayBench< double, short > >(); break;
    case 10: run< StackArrayBench< Triple, int > >(); break;
    case 11: run< StackArrayBench< std::int64_t, int > >(); break;
    default: run< StackArrayBench< double > >(); break;
  }
}
