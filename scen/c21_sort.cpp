// C21: sorting and sorted-range algorithms permute exactly and stay in range.
#if defined(C21_DEVICE)
// The code a device would run: only the sorting header is compiled for the device.
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <utility>
#include "LvArrayConfig.hpp"
#include "Macros.hpp"
#include "arrayManipulation.hpp"
#define __CUDA_ARCH__ 700
#include "sortedArrayManipulation.hpp"
#undef __CUDA_ARCH__
#endif
#include "common.hpp"
#include <deque>

using namespace scn;
namespace sam = LvArray::sortedArrayManipulation;

namespace
{

struct ComparisonFault {};

/// The order of a run of an algorithm. An adversary decides the order only as far as its answers determine it and answers so that
/// pivots are bad (McIlroy, A Killer Adversary for Quicksort); its answers are always consistent with one total order.
struct Order
{
  enum Kind { LESS, GREATER, MODULO, DISTANCE, ADVERSARY } kind = LESS;
  Id param = 1;
  std::vector< int > rank;   // adversary: decided ranks, GAS when open
  int decided = 0;
  Id candidate = 0;
  enum { GAS = 1 << 30 };
  long calls = 0;
  long budget = 0;
  long failAt = -1;

  bool less( Id const a, Id const b )
  {
    ++calls;
    SIM_CHECK( calls <= budget, "does-not-terminate", "the algorithm made more than %ld comparisons", budget );
    if( calls == failAt ) { sim::fault_fired( "comparison-throws" ); throw ComparisonFault(); }
    switch( kind )
    {
      case LESS: return a < b;
      case GREATER: return b < a;
      case MODULO: return a % param < b % param;
      case DISTANCE: return std::abs( a - param ) < std::abs( b - param );
      default: break;
    }
    SIM_CHECK( a >= 0 && b >= 0 && a < Id( rank.size() ) && b < Id( rank.size() ), "wrong-value", "a value that is not in the range is compared" );
    if( rank[ a ] == GAS && rank[ b ] == GAS ) rank[ a == candidate ? a : b ] = decided++;
    if( rank[ a ] == GAS ) candidate = a;
    else if( rank[ b ] == GAS ) candidate = b;
    return rank[ a ] < rank[ b ];
  }
  bool precedes( Id const a, Id const b ) const
  {
    switch( kind )
    {
      case LESS: return a < b;
      case GREATER: return b < a;
      case MODULO: return a % param < b % param;
      case DISTANCE: return std::abs( a - param ) < std::abs( b - param );
      default: return rank[ a ] < rank[ b ];
    }
  }
};

template< typename T > struct Compare
{
  Order * order;
  bool operator()( T const & a, T const & b ) const { return order->less( Elem< T >::id( a ), Elem< T >::id( b ) ); }
};

/// Uninitialised memory filled with values, exactly as long as needed, so that every neighbouring byte belongs to nobody.
template< typename T > struct Block
{
  T * p; I n; void * raw;
  Block( Block const & ) = delete;
  explicit Block( std::vector< Id > const & v ): n( I( v.size() ) ), raw( sim::hostAlloc( std::max( std::size_t( 1 ), v.size() * sizeof( T ) ) ) )
  {
    p = static_cast< T * >( raw );
    for( I i = 0; i < n; ++i ) new ( p + i ) T( Elem< T >::make( v[ i ] ) );
  }
  ~Block()
  {
    for( I i = 0; i < n; ++i ) p[ i ].~T();
    sim::hostFree( raw );
  }
};

int drawLength()
{
  switch( sim::draw( 10 ) )
  {
    case 0: return 0;
    case 1: return 1;
    case 2: case 3: return sim::range( 2, 5 );
    case 4: return sim::range( 6, 40 );
    case 5: case 6: return sim::range( 60, 70 );   // the insertion sort threshold
    case 7: return sim::range( 126, 135 );
    case 8: return sim::range( 71, 240 );
    default: return sim::range( 200, 400 );
  }
}

/// Values in 0 .. n - 1, in an order of some kind.
std::vector< Id > drawValues( int const n )
{
  std::vector< Id > v( n );
  switch( sim::draw( 9 ) )
  {
    case 0: for( int i = 0; i < n; ++i ) v[ i ] = i; break;
    case 1: for( int i = 0; i < n; ++i ) v[ i ] = n - 1 - i; break;
    case 2: { Id const x = n ? Id( sim::draw( n ) ) : 0; for( auto & e : v ) e = x; break; }
    case 3: { int const k = sim::range( 2, 5 ); for( auto & e : v ) e = Id( sim::draw( k ) ) % n; break; }
    case 4: for( int i = 0; i < n; ++i ) v[ i ] = i < n / 2 ? 2 * i : 2 * ( n - 1 - i ) + 1; break; // organ pipe
    case 5:
    { // the classic sequence on which the median of three takes the second smallest value each time
      for( int i = 0; i < n; ++i ) v[ i ] = i;
      int const h = n / 2;
      for( int i = 0; i < h; ++i ) v[ i ] = i % 2 == 0 ? i + 1 : h + i;
      for( int i = 0; i < h; ++i ) v[ h + i ] = 2 * ( i + 1 );
      for( auto & e : v ) e = n ? e % n : 0;
      break;
    }
    case 6:
    { // sorted up to a few exchanges
      for( int i = 0; i < n; ++i ) v[ i ] = i;
      for( int k = 0; n && k < 3; ++k ) std::swap( v[ sim::draw( n ) ], v[ sim::draw( n ) ] );
      break;
    }
    case 7:
    {
      int const p = sim::range( 2, 9 );
      for( int i = 0; i < n; ++i ) v[ i ] = ( i % p ) * ( n / p ) % n;
      break;
    }
    default: for( auto & e : v ) e = Id( sim::draw( n ) );
  }
  return v;
}

char const * const ALGORITHM[] = { "makeSorted", "dualSort", "makeSortedUnique", "removeDuplicates", "isSorted", "isSortedUnique", "find", "remove", "insert" };

template< typename IT > std::vector< Id > idsOf( IT b, IT const e )
{
  using T = typename std::decay< decltype( *b ) >::type;
  std::vector< Id > v;
  for(; b != e; ++b ) v.push_back( Elem< T >::id( *b ) );
  return v;
}

std::vector< Id > sortedCopy( std::vector< Id > v ) { std::sort( v.begin(), v.end() ); return v; }

/// One algorithm on [vp, vp + n) (and [dp, dp + n)), given as the iterators VI and DI.
template< typename T, typename D, typename VI, typename DI >
void work( int const me, VI const vp, DI const dp, int const n )
{
  sim::Span span;
  int const algorithm = int( sim::draw( 6 ) );
  Order order;
  order.budget = 64 + 6L * n * ( n + 4 );
  std::vector< Id > before = drawValues( n );
  std::uint32_t const how = sim::draw( 7 );
  if( how == 2 ) order.kind = Order::GREATER;
  if( how == 3 ) { order.kind = Order::MODULO; order.param = sim::range( 1, 9 ); }
  if( how == 4 ) { order.kind = Order::DISTANCE; order.param = n ? Id( sim::draw( n ) ) : 0; }
  if( how >= 5 && n > 0 )
  { // all values are different, the adversary decides which is which
    order.kind = Order::ADVERSARY;
    order.rank.assign( n, int( Order::GAS ) );
    for( int i = 0; i < n; ++i ) before[ i ] = i;
  }
  bool const defaulted = order.kind == Order::LESS && sim::chance( 1, 2 );
  bool const wantSorted = algorithm == 3 || ( algorithm >= 4 && sim::chance( 2, 3 ) );
  if( wantSorted )
  {
    if( order.kind == Order::ADVERSARY ) { order.kind = Order::LESS; order.rank.clear(); }
    std::stable_sort( before.begin(), before.end(), [ & ]( Id const a, Id const b ) { return order.precedes( a, b ); } );
    if( algorithm >= 4 && sim::chance( 1, 2 ) )
    {
      before.erase( std::unique( before.begin(), before.end(), [ & ]( Id const a, Id const b ) { return !order.precedes( a, b ) && !order.precedes( b, a ); } ), before.end() );
      // keep the length: continue with larger values
      while( int( before.size() ) < n )
      {
        Id const next = before.empty() ? 0 : before.back() + ( order.kind == Order::GREATER ? -1 : 1 );
        before.push_back( next );
      }
    }
    if( algorithm >= 4 && n > 1 && sim::chance( 1, 2 ) ) std::swap( before[ sim::draw( n ) ], before[ n - 1 - sim::draw( std::uint32_t( std::min( n, 3 ) ) ) ] );
  }
  if( algorithm < 3 && n > 0 && sim::faultsEnabled() && sim::faultPoint( "comparison-throws", 200 ) ) order.failAt = 1 + long( sim::faultValue( std::uint32_t( 4 * n ) ) );
  Compare< T > const comp{ &order };
  Compare< T > lvalueComp = comp;

  // fill in the values
  for( int i = 0; i < n; ++i ) { vp[ i ] = Elem< T >::make( before[ i ] ); dp[ i ] = Elem< D >::make( i ); }
  sim::log( "%d: %s of %d %s order %d %s%s", me, ALGORITHM[ algorithm ], n, Elem< T >::name(), int( order.kind ), defaulted ? "default " : "", n <= 12 ? show( before ).c_str() : "" );
  if( n > 1 ) sim::probe( "nontrivial" );

  std::ptrdiff_t unique = 0;
  bool answer = false;
  bool thrown = false;
  try
  {
    switch( algorithm )
    {
      case 0:
        if( defaulted ) sam::makeSorted( vp, vp + n );
        else if( sim::chance( 1, 2 ) ) sam::makeSorted( vp, vp + n, comp );
        else sam::makeSorted( vp, vp + n, lvalueComp );
        break;
      case 1:
        if( defaulted ) sam::dualSort( vp, vp + n, dp );
        else if( sim::chance( 1, 2 ) ) sam::dualSort( vp, vp + n, dp, comp );
        else sam::dualSort( vp, vp + n, dp, Compare< T >{ &order } );
        break;
      case 2:
        unique = defaulted ? sam::makeSortedUnique( vp, vp + n ) : sim::chance( 1, 2 ) ? sam::makeSortedUnique( vp, vp + n, lvalueComp ) : sam::makeSortedUnique( vp, vp + n, Compare< T >{ &order } );
        break;
      case 3:
        unique = defaulted ? sam::removeDuplicates( vp, vp + n ) : sam::removeDuplicates( vp, vp + n, comp );
        break;
      case 4:
        answer = defaulted ? sam::isSorted( vp, vp + n ) : sam::isSorted( vp, vp + n, comp );
        break;
      default:
        answer = defaulted ? sam::isSortedUnique( vp, vp + n ) : sam::isSortedUnique( vp, vp + n, comp );
    }
  }
  catch( ComparisonFault const & ) { thrown = true; }
  if( n > 64 && algorithm < 2 && !thrown ) sim::probe( "partitioned" );
  if( order.kind == Order::ADVERSARY && n > 128 && algorithm < 2 && !thrown ) sim::probe( "adversary" );

  std::vector< Id > const after = idsOf( vp, vp + n );
  std::vector< Id > const data = idsOf( dp, dp + n );
  if( thrown ) return; // all values can still be assigned to and destroyed, which the next round and the end of the run do
  if( algorithm != 1 ) for( int i = 0; i < n; ++i ) SIM_CHECK( data[ i ] == i, "stray-write", "%s changed other values", ALGORITHM[ algorithm ] );
  auto const inOrder = [ & ]( I const count, bool const strictly )
  {
    for( I i = 1; i < count; ++i )
    {
      if( order.precedes( after[ i ], after[ i - 1 ] ) || ( strictly && !order.precedes( after[ i - 1 ], after[ i ] ) ) ) return false;
    }
    return true;
  };
  if( algorithm < 2 )
  {
    SIM_CHECK( sortedCopy( after ) == sortedCopy( before ), "lost-value", "%s of %d values in %s gives other values", ALGORITHM[ algorithm ], n, show( before ).c_str() );
    SIM_CHECK( inOrder( n, false ), "not-sorted", "%s of %d values gives %s", ALGORITHM[ algorithm ], n, show( after ).c_str() );
  }
  if( algorithm == 1 )
  {
    std::vector< bool > seen( n );
    for( int i = 0; i < n; ++i )
    {
      SIM_CHECK( data[ i ] >= 0 && data[ i ] < n && !seen[ data[ i ] ], "lost-value", "a value of the second range was lost" );
      seen[ data[ i ] ] = true;
      SIM_CHECK( before[ data[ i ] ] == after[ i ], "pair-broken", "value %d is %lld but its partner belongs to %lld", i, (long long) after[ i ], (long long) before[ data[ i ] ] );
    }
  }
  if( algorithm == 2 || algorithm == 3 )
  {
    int expect = 0;
    std::vector< Id > distinct;
    for( Id const b : before )
    {
      bool const there = std::any_of( distinct.begin(), distinct.end(), [ & ]( Id const d ) { return !order.precedes( b, d ) && !order.precedes( d, b ); } );
      if( !there ) distinct.push_back( b );
      if( distinct.size() > 40 && order.kind != Order::MODULO && order.kind != Order::DISTANCE )
      { // plain orders: count with a set
        std::set< Id > const s( before.begin(), before.end() );
        distinct.assign( s.begin(), s.end() );
        break;
      }
    }
    expect = int( distinct.size() );
    if( expect < n ) sim::probe( "duplicates" );
    SIM_CHECK( unique == expect, "wrong-answer", "%s of %d values with %d distinct ones answers %d", ALGORITHM[ algorithm ], n, expect, int( unique ) );
    SIM_CHECK( inOrder( unique, true ), "not-sorted", "%s gives %s", ALGORITHM[ algorithm ], show( std::vector< Id >( after.begin(), after.begin() + unique ) ).c_str() );
    std::vector< Id > const all = sortedCopy( before );
    for( I i = 0; i < unique; ++i ) SIM_CHECK( std::binary_search( all.begin(), all.end(), after[ i ] ), "wrong-value", "%lld was not in the range", (long long) after[ i ] );
  }
  if( algorithm >= 4 )
  {
    SIM_CHECK( after == before, "changed-value", "%s changed the values", ALGORITHM[ algorithm ] );
    SIM_CHECK( answer == inOrder( n, algorithm == 5 ), "wrong-answer", "%s answers %d for %s", ALGORITHM[ algorithm ], int( answer ), show( before ).c_str() );
    if( answer && n > 1 ) sim::probe( "sorted-query" );
  }
}

/// What a container told the algorithm to do: applied to a second list, which must end equal to the first.
template< typename T > struct Recorder
{
  T * buffer;
  std::vector< Id > mirror;
  std::vector< Id > const * values;
  I added;

  T * incrementSize( T * const p, std::ptrdiff_t const n ) { SIM_CHECK( p == buffer, "wrong-answer", "the values are said to be elsewhere" ); added = n; return buffer; }
  void insert( std::ptrdiff_t const pos ) { mirror.insert( mirror.begin() + pos, ( *values )[ 0 ] ); }
  void set( std::ptrdiff_t const pos, std::ptrdiff_t const k )
  {
    if( mirror.size() < std::size_t( added ) ) mirror.resize( added, -1 );
    mirror[ pos ] = ( *values )[ k ];
  }
  void insert( std::ptrdiff_t const left, std::ptrdiff_t const k, std::ptrdiff_t const pos, std::ptrdiff_t const prev )
  {
    if( left == added ) mirror.resize( mirror.size() + added, -1 );
    for( I i = prev - 1; i >= pos; --i ) mirror[ i + left ] = mirror[ i ];
    mirror[ pos + left - 1 ] = ( *values )[ k ];
  }
  void remove( std::ptrdiff_t const pos ) { mirror.erase( mirror.begin() + pos ); }
  void remove( std::ptrdiff_t const removed, std::ptrdiff_t const cur, std::ptrdiff_t const next )
  {
    for( I i = cur + 1; i < next; ++i ) mirror[ i - removed ] = mirror[ i ];
    if( next == I( mirror.size() ) ) mirror.resize( mirror.size() - removed );
  }
};

/// Searching, inserting and removing in a buffer that has room for exactly the result.
template< typename T >
void sortedOps( int const me )
{
  sim::Span span;
  std::set< Id > s;
  int const universe = sim::chance( 1, 2 ) ? 15 : 60;
  while( int( s.size() ) < universe - 5 && sim::more( 12 ) ) s.insert( Id( sim::draw( universe ) ) + 1 );
  std::vector< Id > values;
  int const op = int( sim::draw( 5 ) );
  bool const ranged = op >= 3;
  {
    std::set< Id > r;
    int const style = int( sim::draw( 3 ) );
    if( style == 0 ) { while( sim::more( 6 ) ) r.insert( Id( sim::draw( universe + 4 ) ) ); }
    else if( style == 1 ) { Id const from = Id( sim::draw( universe ) ); int const c = sim::range( 0, 9 ); for( Id i = from; i < from + c; ++i ) r.insert( i ); }
    else { for( Id const i : s ) if( sim::chance( 1, 2 ) ) r.insert( i ); r.insert( Id( sim::draw( universe ) ) ); }
    values.assign( r.begin(), r.end() );
    if( !ranged && values.empty() ) values.push_back( 3 );
    if( !ranged ) { std::swap( values[ 0 ], values[ sim::draw( std::uint32_t( values.size() ) ) ] ); values.resize( 1 ); }
  }
  std::set< Id > result( s );
  bool const inserting = op == 2 || op == 4;
  int changed = 0;
  if( op >= 1 ) for( Id const x : values ) changed += inserting ? int( result.insert( x ).second ) : int( result.erase( x ) );
  I const size = I( s.size() );
  I const room = std::max( size, I( result.size() ) );
  void * const raw = sim::hostAlloc( std::max( std::size_t( 1 ), std::size_t( room ) * sizeof( T ) ) );
  T * const p = room == 0 && sim::chance( 1, 2 ) ? nullptr : static_cast< T * >( raw );
  { I i = 0; for( Id const x : s ) new ( p + i++ ) T( Elem< T >::make( x ) ); }
  Recorder< T > rec{ p, std::vector< Id >( s.begin(), s.end() ), &values, 0 };
  static char const * const OPS[] = { "find", "remove", "insert", "remove range", "insert range" };
  sim::log( "%d: %s of %zu of %s in %s", me, OPS[ op ], values.size(), Elem< T >::name(), show( rec.mirror ).c_str() );
  if( op == 0 )
  {
    T const x = Elem< T >::make( values[ 0 ] );
    bool const down = sim::chance( 1, 4 );
    if( down )
    {
      for( I i = 0; i < size / 2; ++i ) { T t = p[ i ]; p[ i ] = p[ size - 1 - i ]; p[ size - 1 - i ] = t; }
      I const expect = size - I( std::distance( s.begin(), s.upper_bound( values[ 0 ] ) ) );
      I const at = sam::find( p, size, x, sam::greater< T >() );
      SIM_CHECK( at == expect, "wrong-answer", "find answers %d, expected %d", int( at ), int( expect ) );
      SIM_CHECK( sam::contains( p, size, x, sam::greater< T >() ) == ( s.count( values[ 0 ] ) == 1 ), "wrong-answer", "contains is wrong for %lld", (long long) values[ 0 ] );
    }
    else
    {
      I const expect = I( std::distance( s.begin(), s.lower_bound( values[ 0 ] ) ) );
      I const at = sam::find( p, size, x );
      SIM_CHECK( at == expect, "wrong-answer", "find answers %d, expected %d", int( at ), int( expect ) );
      SIM_CHECK( sam::contains( p, size, x ) == ( s.count( values[ 0 ] ) == 1 ), "wrong-answer", "contains is wrong for %lld", (long long) values[ 0 ] );
      SIM_CHECK( sam::isSortedUnique( p, p + size ), "wrong-answer", "not sorted and unique" );
    }
  }
  else
  {
    long got;
    if( !ranged )
    {
      T const x = Elem< T >::make( values[ 0 ] );
      got = op == 1 ? sam::remove( p, size, x, rec ) : sam::insert( p, size, x, rec );
    }
    else
    {
      std::vector< T > input;
      for( Id const x : values ) input.push_back( Elem< T >::make( x ) );
      std::set< T > tree( input.begin(), input.end() );
      if( sim::chance( 1, 2 ) ) got = op == 3 ? sam::remove( p, size, input.begin(), input.end(), rec ) : sam::insert( p, size, input.begin(), input.end(), rec );
      else got = op == 3 ? sam::remove( p, size, tree.begin(), tree.end(), rec ) : sam::insert( p, size, tree.begin(), tree.end(), rec );
      if( changed > 1 ) sim::probe( "several-changed" );
    }
    SIM_CHECK( got == changed, "wrong-answer", "%s answers %ld, expected %d", OPS[ op ], got, changed );
    std::vector< Id > const expect( result.begin(), result.end() );
    std::vector< Id > const now = idsOf( p, p + I( result.size() ) );
    SIM_CHECK( now == expect, "wrong-value", "%s gives %s, expected %s", OPS[ op ], show( now ).c_str(), show( expect ).c_str() );
    SIM_CHECK( rec.mirror == expect, "wrong-callback", "%s told its container to make %s of the partner values, expected %s", OPS[ op ], show( rec.mirror ).c_str(), show( expect ).c_str() );
    if( size > 1 ) sim::probe( "nontrivial" );
  }
  if( op == 0 ) for( I i = 0; i < size; ++i ) p[ i ].~T();
  else for( I i = 0; i < I( result.size() ); ++i ) p[ i ].~T();
  sim::hostFree( raw );
}

template< typename T, typename D >
void run()
{
  int const team = sim::chance( 1, 2 ) ? sim::range( 2, 4 ) : 1;
  std::vector< int > lengths;
  std::vector< int > starts( 1, 0 );
  for( int t = 0; t < team; ++t )
  {
    int n = drawLength();
    if( team > 2 && n > 140 ) n = 140;
    lengths.push_back( n );
    starts.push_back( starts.back() + n );
  }
  LeakCheck leaks;
  {
    std::vector< Id > const nothing( starts.back(), 0 );
    Block< T > values( nothing );
    Block< D > data( nothing );
    T * const vp = values.p;
    D * const dp = data.p;
    int const rounds = sim::range( 1, 3 );
    callers( team, [ & ]( int const t )
    {
      for( int r = 0; r < rounds; ++r )
      {
        if( sim::chance( 1, 4 ) ) sortedOps< T >( t );
        else if( sim::chance( 1, 6 ) )
        { // other iterators
          std::vector< T > v( nothing.size() ? lengths[ t ] : 0, Elem< T >::make( 0 ) );
          std::deque< D > d( lengths[ t ], Elem< D >::make( 0 ) );
          work< T, D >( t, v.begin(), d.begin(), lengths[ t ] );
          sim::probe( "container-iterators" );
        }
        else work< T, D >( t, vp + starts[ t ], dp + starts[ t ], lengths[ t ] );
      }
    } );
  }
  leaks.check( "the ranges were destroyed" );
}

} // namespace

void scenarioWarmup() {}

void scenario()
{
  sim::setFaultsEnabled( sim::chance( 1, 3 ) );
  switch( sim::draw( 8 ) )
  {
    case 0: run< std::int64_t, int >(); break;
    case 1: run< int, double >(); break;
    case 2: run< double, std::int64_t >(); break;
    case 3: run< Tracked, Tracked >(); break;
    case 4: run< Tracked, int >(); break;
    case 5: run< std::string, Tracked >(); break;
    case 6: run< int, std::string >(); break;
    default: run< std::int64_t, std::int64_t >();
  }
}
