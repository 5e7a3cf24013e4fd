// C08: a ragged array behaves like a vector of vectors for every history.
#include "bench_ragged.hpp"

using namespace scn;

namespace
{
template< typename BENCH >
void run()
{
  LeakCheck leaks;
  int const n = sim::chance( 1, 5 ) ? sim::range( 2, 3 ) : 1;
  callers( n, []( int const t )
  {
    BENCH bench( t );
    while( sim::more( 22 ) )
    {
      bench.step();
      bench.verify();
    }
  } );
  leaks.check( "the arrays were destroyed" );
}
} // namespace

void scenarioWarmup() {}

void scenario()
{
  switch( sim::draw( 8 ) )
  {
    case 0: run< RaggedBench< std::int64_t, I > >(); break;
    case 7: run< RaggedBench< double, short > >(); break;
    case 6: run< RaggedBench< Triple, int > >(); break;
    case 1: run< RaggedBench< int, int > >(); break;
    case 2: run< RaggedBench< double, I > >(); break;
    case 3: case 4: run< RaggedBench< Tracked, I > >(); break;
    default: run< RaggedBench< std::string, I > >(); break;
  }
}
