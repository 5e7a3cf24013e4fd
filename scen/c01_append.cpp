// C01: concurrent atomic append to inner arrays is exactly-once.
#include "common.hpp"

using namespace LvArray;
using namespace scn;

namespace
{

struct Item { I array; Id id; };

template< typename T, typename ATOMIC >
void run()
{
  LeakCheck leaks;
  {
    using AoA = ArrayOfArrays< T, I, MallocBuffer >;
    I const n = sim::range( 1, 4 );
    AoA a;
    std::vector< std::vector< Id > > model( n );
    std::vector< I > cap;
    Id nextId = 1;
    for( I i = 0; i < n; ++i ) cap.push_back( sim::range( 0, 12 ) );
    a.template resizeFromCapacities< RAJA::loop_exec >( n, cap.data() );
    for( I i = 0; i < n; ++i )
    {
      I const k = I( sim::draw( std::uint32_t( cap[ i ] / 2 + 1 ) ) );
      for( I j = 0; j < k; ++j ) { model[ i ].push_back( nextId ); a.emplaceBack( i, Elem< T >::make( nextId++ ) ); }
    }

    int const rounds = sim::range( 1, 3 );
    for( int round = 0; round < rounds; ++round )
    {
      // the work: at most what fits
      std::vector< Item > items;
      std::vector< std::vector< Id > > added( n );
      bool const focus = sim::chance( 1, 2 );
      I const hot = I( sim::draw( std::uint32_t( n ) ) );
      while( sim::more( 12 ) )
      {
        I const i = focus ? hot : I( sim::draw( std::uint32_t( n ) ) );
        if( I( model[ i ].size() + added[ i ].size() ) >= cap[ i ] ) continue;
        added[ i ].push_back( nextId );
        items.push_back( Item{ i, nextId++ } );
      }
      I const m = I( items.size() );
      ArrayOfArraysView< T, I const, false, MallocBuffer > const view = a.toView();
      Item const * const work = items.data();
      sim::log( "round %d: %d appends to %d arrays of %s", round, int( m ), int( n ), Elem< T >::name() );
      std::uint64_t const before = sim::steps();
      switch( sim::draw( 3 ) )
      {
        case 0:
          RAJA::forall< RAJA::omp_parallel_for_exec >( RAJA::TypedRangeSegment< I >( 0, m ), [ view, work ]( I const k )
          { view.template emplaceBackAtomic< ATOMIC >( work[ k ].array, Elem< T >::make( work[ k ].id ) ); } );
          break;
        case 1:
        {
          int const team = sim::range( 1, 6 );
          sim::parallel( team, [ & ]( int const t )
          {
            auto const mine = view;
            for( I k = t; k < m; k += team ) mine.template emplaceBackAtomic< ATOMIC >( work[ k ].array, Elem< T >::make( work[ k ].id ) );
          } );
          break;
        }
        default:
        { // all threads through the same view, lvalue arguments
          int const team = sim::range( 1, 6 );
          sim::parallel( team, [ & ]( int const t )
          {
            for( I k = I( t ) * m / team; k < I( t + 1 ) * m / team; ++k )
            {
              T const value( Elem< T >::make( work[ k ].id ) );
              view.template emplaceBackAtomic< ATOMIC >( work[ k ].array, value );
            }
          } );
        }
      }
      (void) before;
      if( m > 1 ) sim::probe( "nontrivial" );

      SIM_CHECK( a.size() == n, "wrong-size", "the number of arrays changed to %d", int( a.size() ) );
      for( I i = 0; i < n; ++i )
      {
        auto & was = model[ i ];
        auto & add = added[ i ];
        I const expect = I( was.size() + add.size() );
        SIM_CHECK( a.sizeOfArray( i ) == expect, "lost-append", "array %d has size %d after %zu concurrent appends to %zu values", int( i ), int( a.sizeOfArray( i ) ), add.size(), was.size() );
        SIM_CHECK( a.capacityOfArray( i ) == cap[ i ], "wrong-capacity", "the capacity of array %d changed", int( i ) );
        std::vector< Id > now;
        for( I j = 0; j < expect; ++j ) now.push_back( Elem< T >::id( a( i, j ) ) );
        SIM_CHECK( std::equal( was.begin(), was.end(), now.begin() ), "changed-value", "a value present before the appends changed: %s, had %s", show( now ).c_str(), show( was ).c_str() );
        std::vector< Id > tail( now.begin() + I( was.size() ), now.end() );
        std::vector< Id > sorted( tail );
        std::sort( sorted.begin(), sorted.end() );
        SIM_CHECK( sorted == add, "lost-append", "array %d received %s but the appends were %s", int( i ), show( tail ).c_str(), show( add ).c_str() );
        if( tail != add ) sim::probe( "appends-out-of-order" );
        if( I( now.size() ) == cap[ i ] && !add.empty() ) sim::probe( "array-exactly-full" );
        was = now;
      }
    }
  }
  leaks.check( "the array was destroyed" );
}

} // namespace

void scenarioWarmup() {}

void scenario()
{
  std::uint32_t const t = sim::draw( 9 );
  switch( t )
  {
    case 0: case 1: run< std::int64_t, RAJA::omp_atomic >(); break;
    case 2: run< std::int64_t, RAJA::builtin_atomic >(); break;
    case 3: run< int, RAJA::auto_atomic >(); break;
    case 4: case 5: run< Tracked, RAJA::omp_atomic >(); break;
    case 6: run< std::string, RAJA::omp_atomic >(); break;
    case 7: run< double, RAJA::builtin_atomic >(); break;
    default: run< Tracked, RAJA::auto_atomic >(); break;
  }
}
