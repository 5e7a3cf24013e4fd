// C09: an array of sets behaves like a vector of ordered sets for every history.
#include "bench_sets.hpp"

using namespace scn;

namespace
{
template< typename BENCH >
void run()
{
  LeakCheck leaks;
  int const n = sim::chance( 1, 5 ) ? sim::range( 2, 3 ) : 1;
  callers( n, []( int const t )
  {
    BENCH bench( t );
    while( sim::more( 22 ) )
    {
      bench.step();
      bench.verify();
    }
  } );
  leaks.check( "the arrays were destroyed" );
}
} // namespace

void scenarioWarmup() {}

void scenario()
{
  switch( sim::draw( 8 ) )
  {
    case 0: run< SetsBench< std::int64_t, I > >(); break;
    case 7: run< SetsBench< double, short > >(); break;
    case 6: run< SetsBench< Triple, I > >(); break;
    case 1: run< SetsBench< int, int > >(); break;
    case 2: run< SetsBench< double, I > >(); break;
    case 3: case 4: run< SetsBench< Tracked, I > >(); break;
    default: run< SetsBench< std::string, I > >(); break;
  }
}
