// C11: every element is constructed and destroyed exactly once and nothing leaks.
#include "common.hpp"

namespace scn
{

/// An element that owns memory: a bitwise copy, a second destruction or a missing one shows in the heap too.
struct Owner : Tracked
{
  Id * p;

  Owner(): Tracked(), p( nullptr ) {}
  explicit Owner( Id const x ): Tracked( x ), p( x == 0 ? nullptr : new Id( x ) ) {}
  Owner( Owner const & o ): Tracked( o ), p( o.p ? new Id( *o.p ) : nullptr ) {}
  Owner( Owner && o ): Tracked( static_cast< Tracked && >( o ) )
  {
    if( !sim::lifeIsLive( this ) ) return; // a dead slot was relocated, see Tracked
    p = o.p;
    o.p = nullptr;
  }
  Owner & operator=( Owner const & o )
  {
    Tracked::operator=( o );
    if( this != &o )
    {
      Id * const q = o.p ? new Id( *o.p ) : nullptr;
      delete p;
      p = q;
    }
    return *this;
  }
  Owner & operator=( Owner && o )
  {
    Tracked::operator=( static_cast< Tracked && >( o ) );
    if( this != &o )
    {
      delete p;
      p = o.p;
      o.p = nullptr;
    }
    return *this;
  }
  ~Owner() { if( sim::lifeIsLive( this ) ) delete p; }
};

template<> struct Elem< Owner >
{
  static Owner make( Id i ) { return Owner( i ); }
  static Id id( Owner const & t )
  {
    Id const x = Tracked::read( t, "read" );
    SIM_CHECK( x == 0 ? t.p == nullptr : t.p != nullptr && *t.p == x, "wrong-value", "the memory owned by element %lld is not its own", (long long) x );
    return x;
  }
  static char const * name() { return "Owner"; }
};
inline Owner & operator+=( Owner & a, Owner const & b )
{ return a = Owner( Elem< Owner >::id( a ) + Elem< Owner >::id( b ) ); }

struct Nested : LvArray::Array< Owner, 1, RAJA::PERM_I, I, LvArray::MallocBuffer >
{
  friend bool operator<( Nested const & a, Nested const & b )
  { return std::lexicographical_compare( a.begin(), a.end(), b.begin(), b.end() ); }
  friend bool operator>( Nested const & a, Nested const & b ) { return b < a; }
  friend bool operator<=( Nested const & a, Nested const & b ) { return !( b < a ); }
  friend bool operator>=( Nested const & a, Nested const & b ) { return !( a < b ); }
  friend bool operator==( Nested const & a, Nested const & b ) { return !( a < b ) && !( b < a ); }
  friend bool operator!=( Nested const & a, Nested const & b ) { return !( a == b ); }
};

/// A container as element: as many owners as the value tells.
template<> struct Elem< Nested >
{
  static Nested make( Id i )
  {
    Nested n;
    if( i == 0 ) return n;
    n.emplace_back( i );
    for( Id k = 0; k < i % 3; ++k ) n.emplace_back( i );
    return n;
  }
  static Id id( Nested const & n )
  {
    if( n.empty() ) return 0;
    Id const x = Elem< Owner >::id( n[ 0 ] );
    SIM_CHECK( n.size() == 1 + x % 3, "wrong-value", "an element of %d values, expected %d", int( n.size() ), int( 1 + x % 3 ) );
    for( Owner const & o : n ) SIM_CHECK( Elem< Owner >::id( o ) == x, "wrong-value", "a value of a nested array is %lld, expected %lld", (long long) Elem< Owner >::id( o ), (long long) x );
    return x;
  }
  static char const * name() { return "Nested"; }
};

} // namespace scn

#include "bench_array.hpp"
#include "bench_ndarray.hpp"
#include "bench_sorted.hpp"
#include "bench_ragged.hpp"
#include "bench_sets.hpp"
#include "bench_sparse.hpp"

using namespace scn;

namespace
{

// How many elements the model says exist.
long weight( Nested const *, Id const id ) { return id == 0 ? 0 : 1 + long( id % 3 ); }
template< typename T > long weight( T const *, Id ) { return 1; }

template< typename T > long countOf( T const * const t, std::vector< Id > const & v ) { long n = 0; for( Id const i : v ) n += weight( t, i ); return n; }
template< typename T > long countOf( T const * const t, std::set< Id > const & v ) { long n = 0; for( Id const i : v ) n += weight( t, i ); return n; }
template< typename T > long countOf( T const * const t, std::map< long, Id > const & v ) { long n = 0; for( auto const & i : v ) n += weight( t, i.second ); return n; }
template< typename T, int N > long countOf( T const * const t, Model< N > const & v ) { return countOf( t, v.v ); }
template< typename T, typename INNER > long countOf( T const * const t, std::vector< INNER > const & v ) { long n = 0; for( auto const & i : v ) n += countOf( t, i ); return n; }

template< typename BENCH, typename T >
void history( BENCH & bench, std::uint64_t const before, bool const alone )
{
  while( sim::more( 22 ) )
  {
    bench.step();
    bench.verify();
    if( !alone ) continue;
    long expected = 0;
    for( auto const & m : bench.m ) expected += countOf( static_cast< T const * >( nullptr ), m );
    long const got = long( sim::lifeCount() - before );
    SIM_CHECK( got == expected, "element-not-destroyed", "%ld elements are alive, the containers hold %ld", got, expected );
  }
}

template< typename T, typename BENCH >
void run()
{
  LeakCheck leaks;
  std::uint64_t const before = sim::lifeCount();
  int const n = sim::chance( 1, 6 ) ? 2 : 1;
  callers( n, [ before, n ]( int const t )
  {
    BENCH bench( t );
    history< BENCH, T >( bench, before, n == 1 );
  } );
  leaks.check( "the containers were destroyed" );
}

template< typename T, typename BENCH >
void runNd()
{
  LeakCheck leaks;
  std::uint64_t const before = sim::lifeCount();
  {
    BENCH bench( 0, true );
    history< BENCH, T >( bench, before, true );
  }
  leaks.check( "the arrays were destroyed" );
}

} // namespace

void scenarioWarmup() { reportGaps = true; }

void scenario()
{
  switch( sim::draw( 16 ) )
  {
    case 0: case 1: run< Tracked, HeapArrayBench< Tracked > >(); break;
    case 2: run< Owner, HeapArrayBench< Owner, int > >(); break;
    case 3: run< Nested, HeapArrayBench< Nested > >(); break;
    case 4: runNd< Tracked, NdBench< Tracked, 2, RAJA::PERM_IJ, RAJA::PERM_JI, I, LvArray::MallocBuffer, 72 > >(); break;
    case 5: runNd< Owner, NdBench< Owner, 3, RAJA::PERM_KIJ, RAJA::PERM_IJK, int, LvArray::MallocBuffer, 72 > >(); break;
    case 6: run< Tracked, HeapSortedBench< Tracked > >(); break;
    case 7: run< Owner, HeapSortedBench< Owner, int > >(); break;
    case 8: case 9: run< Tracked, RaggedBench< Tracked, I > >(); break;
    case 10: run< Owner, RaggedBench< Owner, int > >(); break;
    case 11: run< Nested, RaggedBench< Nested, I > >(); break;
    case 12: run< Tracked, SetsBench< Tracked, I > >(); break;
    case 13: run< Owner, SetsBench< Owner, int > >(); break;
    case 14: run< Tracked, SparseBench< Tracked, int, I, true > >(); break;
    default: run< Owner, SparseBench< Owner, std::int8_t, I, true > >(); break;
  }
}
