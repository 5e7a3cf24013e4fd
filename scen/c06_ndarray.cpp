// C06: multidimensional arrays keep their values and agree across layouts.
#include "bench_ndarray.hpp"

using namespace scn;

namespace
{
template< typename BENCH >
void run()
{
  LeakCheck leaks;
  int const n = sim::chance( 1, 6 ) ? sim::range( 2, 3 ) : 1;
  callers( n, [ n ]( int const t )
  {
    BENCH bench( t, n == 1 );
    while( sim::more( 14 ) )
    {
      bench.step();
      bench.verify();
    }
  } );
  leaks.check( "the arrays were destroyed" );
}

template< typename T, typename IT, typename PERM, typename OTHER, int N >
void heap() { run< NdBench< T, N, PERM, OTHER, IT, LvArray::MallocBuffer, 72 > >(); }
template< typename T, typename IT, typename PERM, typename OTHER, int N >
void stack() { run< NdBench< T, N, PERM, OTHER, IT, StackBuffer40, 40 > >(); }
} // namespace

void scenarioWarmup() {}

void scenario()
{
  using namespace RAJA;
  switch( sim::draw( 18 ) )
  {
    case 0: heap< std::int64_t, I, PERM_IJ, PERM_JI, 2 >(); break;
    case 1: heap< Tracked, I, PERM_IJ, PERM_JI, 2 >(); break;
    case 2: heap< Tracked, int, PERM_JI, PERM_IJ, 2 >(); break;
    case 3: heap< std::string, I, PERM_JI, PERM_IJ, 2 >(); break;
    case 4: heap< Tracked, I, PERM_IJK, PERM_KJI, 3 >(); break;
    case 5: heap< int, I, PERM_IKJ, PERM_JIK, 3 >(); break;
    case 6: heap< Tracked, I, PERM_JKI, PERM_IJK, 3 >(); break;
    case 7: heap< double, I, PERM_KIJ, PERM_IKJ, 3 >(); break;
    case 8: heap< std::int64_t, I, PERM_JIK, PERM_KJI, 3 >(); break;
    case 9: heap< Tracked, I, PERM_KJI, PERM_JKI, 3 >(); break;
    case 10: heap< Tracked, I, PERM_IJKL, PERM_LKJI, 4 >(); break;
    case 11: heap< int, int, PERM_LIKJ, PERM_JKLI, 4 >(); break;
    case 16: heap< double, I, PERM_JIKL, PERM_KLJI, 4 >(); break;
    case 17: heap< double, short, PERM_IJ, PERM_JI, 2 >(); break;
    case 12: stack< double, I, PERM_JI, PERM_IJ, 2 >(); break;
    case 13: heap< Triple, I, PERM_JI, PERM_IJ, 2 >(); break;
    case 14: heap< Triple, int, PERM_JIK, PERM_IJK, 3 >(); break;
    default: stack< int, int, PERM_KIJ, PERM_IJK, 3 >(); break;
  }
}
