// C15: the allocators of Umpire report a failure by an exception.
// Containers whose memory CHAI manages grow and move between the spaces while allocations fail in either of them. The
// exception has to reach the caller, all values have to be what they were and where they can be moved from, nothing
// may be lost, and this and all other containers have to stay usable and destructible.
#include "common.hpp"
#include "ChaiBuffer.hpp"

#include <algorithm>
#include <map>
#include <new>

using namespace LvArray;
using namespace scn;

namespace
{

template< typename T > using Buf = ChaiBuffer< T >;
using Ids = std::vector< Id >;

SIM_NOINSTR bool flip() { return sim::chance( 1, 2 ); }
SIM_NOINSTR std::size_t pick( std::size_t const n ) { return n == 0 ? 0 : sim::draw( std::uint32_t( n ) ); }

#if defined( LVARRAY_USE_CUDA )
constexpr MemorySpace DEVICE = MemorySpace::cuda;
#endif

/// Run an operation while allocations may fail. True if it was carried out, false if the exception came out of it.
template< typename F >
bool attempt( char const * const what, F const & f )
{
  umpire::ResourceManager & rm = umpire::ResourceManager::getInstance();
  std::size_t const before = rm.failures();
  int const n = flip() ? sim::range( 1, 3 ) : 0;
  sim::log( n ? "%s, the %d. allocation fails" : "%s", what, n );
  rm.failNext( n );
  bool thrown = false;
  try { f(); }
  catch( umpire::util::Exception const & ) { thrown = true; }
  rm.failNext( 0 );
  bool const failed = rm.failures() != before;
  SIM_CHECK( thrown == failed, "carried-on", "%s %s", what, failed ? "carried on although it did not get the memory" : "threw although every allocation succeeded" );
  if( thrown )
  {
    sim::probe( "exception" );
    sim::probe( "nontrivial" );
  }
  return !thrown;
}

/// A container and what it holds.
template< typename T >
struct ArrayBox
{
  Array< T, 1, RAJA::PERM_I, I, Buf > a;
  Ids m;
  static Ids make( Id & next, std::size_t n ) { Ids r; while( n-- > 0 ) r.push_back( next++ ); return r; }
  Id next = 1;

  void grow()
  {
    switch( sim::draw( 6 ) )
    {
      case 4:
      {
        I const n = sim::range( 0, 12 );
        Id const x = next++;
        if( attempt( "resizeDefault", [&] { a.resizeDefault( n, Elem< T >::make( x ) ); } ) ) m.resize( std::size_t( n ), x );
        break;
      }
      case 0: case 1: if( attempt( "emplace_back", [&] { a.emplace_back( Elem< T >::make( next ) ); } ) ) m.push_back( next ); ++next; break;
      case 2: { I const n = sim::range( 0, 30 ); attempt( "reserve", [&] { a.reserve( n ); } ); break; }
      case 3:
      {
        Ids const x = make( next, pick( 6 ) );
        std::vector< T > v;
        for( Id const i : x ) v.push_back( Elem< T >::make( i ) );
        std::size_t const p = pick( m.size() + 1 );
        if( attempt( "insert", [&] { a.insert( I( p ), v.begin(), v.end() ); } ) ) m.insert( m.begin() + std::ptrdiff_t( p ), x.begin(), x.end() );
        break;
      }
      default:
      {
        std::size_t const p = pick( m.size() + 1 );
        if( attempt( "emplace", [&] { a.emplace( I( p ), Elem< T >::make( next ) ); } ) ) m.insert( m.begin() + std::ptrdiff_t( p ), next );
        ++next;
      }
    }
  }
  void shrink() { if( !m.empty() ) { a.pop_back(); m.pop_back(); } }
  void check() const
  {
    SIM_CHECK( a.size() == I( m.size() ), "wrong-size", "the size is %lld instead of %zu", (long long) a.size(), m.size() );
    for( std::size_t i = 0; i < m.size(); ++i )
      SIM_CHECK( Elem< T >::id( a[ I( i ) ] ) == m[ i ], "wrong-value", "%zu is %lld instead of %lld", i, (long long) Elem< T >::id( a[ I( i ) ] ), (long long) m[ i ] );
  }
};

/// More dimensions: nothing changes if the operation fails.
template< typename T, typename PERM >
struct TableBox
{
  Array< T, 2, PERM, I, Buf > a;
  I dims[ 2 ] = { 0, 0 };
  Ids m;
  Id next = 1;

  void fill()
  {
    dims[ 0 ] = a.size( 0 );
    dims[ 1 ] = a.size( 1 );
    m.clear();
    for( I i = 0; i < dims[ 0 ]; ++i ) for( I j = 0; j < dims[ 1 ]; ++j ) { a( i, j ) = Elem< T >::make( next ); m.push_back( next++ ); }
  }
  void grow()
  {
    I const x = sim::range( 0, 6 ), y = sim::range( 0, 6 );
    bool done;
    switch( sim::draw( 5 ) )
    {
      case 0: done = attempt( "resize", [&] { a.resize( x, y ); } ); break;
      case 1: done = attempt( "resizeDimension", [&] { a.template resizeDimension< 1 >( y ); } ); break;
      case 2: done = attempt( "resizeWithoutInitializationOrDestruction", [&] { a.resizeWithoutInitializationOrDestruction( x, y ); } ); break;
      case 3: done = attempt( "reserve", [&] { a.reserve( x * y ); } ); if( done ) return; break;
      default:
      {
        a.setSingleParameterResizeIndex( int( pick( 2 ) ) );
        done = attempt( "resize of one dimension", [&] { a.resize( x ); } );
      }
    }
    if( done ) fill();
  }
  void shrink() { a.clear(); fill(); }
  void check() const
  {
    SIM_CHECK( a.size( 0 ) == dims[ 0 ] && a.size( 1 ) == dims[ 1 ], "wrong-size", "the size is %lld,%lld instead of %lld,%lld", (long long) a.size( 0 ), (long long) a.size( 1 ), (long long) dims[ 0 ], (long long) dims[ 1 ] );
    SIM_CHECK( a.capacity() >= a.size(), "wrong-size", "there is room for %lld of %lld values", (long long) a.capacity(), (long long) a.size() );
    std::size_t n = 0;
    for( I i = 0; i < dims[ 0 ]; ++i ) for( I j = 0; j < dims[ 1 ]; ++j )
    {
      SIM_CHECK( Elem< T >::id( a( i, j ) ) == m[ n ], "wrong-value", "%lld,%lld is %lld instead of %lld", (long long) i, (long long) j, (long long) Elem< T >::id( a( i, j ) ), (long long) m[ n ] );
      ++n;
    }
  }
};

template< typename T >
struct SortedBox
{
  SortedArray< T, I, Buf > a;
  Ids m;

  void add( Id const x ) { auto const it = std::lower_bound( m.begin(), m.end(), x ); if( it == m.end() || *it != x ) m.insert( it, x ); }
  void grow()
  {
    if( flip() )
    {
      Id const x = Id( sim::draw( 60 ) );
      if( attempt( "insert", [&] { a.insert( Elem< T >::make( x ) ); } ) ) add( x );
    }
    else if( flip() )
    {
      Ids x;
      for( std::size_t n = pick( 6 ); n-- > 0; ) x.push_back( Id( sim::draw( 60 ) ) );
      std::sort( x.begin(), x.end() );
      x.erase( std::unique( x.begin(), x.end() ), x.end() );
      std::vector< T > v;
      for( Id const i : x ) v.push_back( Elem< T >::make( i ) );
      if( attempt( "insert of several", [&] { a.insert( v.begin(), v.end() ); } ) ) for( Id const i : x ) add( i );
    }
    else { I const n = sim::range( 0, 30 ); attempt( "reserve", [&] { a.reserve( n ); } ); }
  }
  void shrink() { if( !m.empty() ) { std::size_t const i = pick( m.size() ); a.remove( Elem< T >::make( m[ i ] ) ); m.erase( m.begin() + std::ptrdiff_t( i ) ); } }
  void check() const
  {
    SIM_CHECK( a.size() == I( m.size() ), "wrong-size", "the size is %lld instead of %zu", (long long) a.size(), m.size() );
    for( std::size_t i = 0; i < m.size(); ++i )
      SIM_CHECK( Elem< T >::id( a[ I( i ) ] ) == m[ i ], "wrong-value", "%zu is %lld instead of %lld", i, (long long) Elem< T >::id( a[ I( i ) ] ), (long long) m[ i ] );
  }
};

template< typename T >
struct RaggedBox
{
  ArrayOfArrays< T, I, Buf > a;
  std::vector< Ids > m;
  Id next = 1;

  RaggedBox()
  {
    std::size_t const n = 1 + pick( 4 );
    a.resize( I( n ), sim::range( 0, 3 ) );
    m.resize( n );
  }
  void grow()
  {
    std::size_t const i = pick( m.size() );
    switch( sim::draw( 6 ) )
    {
      case 4: { I const n = sim::range( 1, 6 ); if( attempt( "resize", [&] { a.resize( n ); } ) ) m.resize( std::size_t( n ) ); break; }
      case 5: if( m.size() < 6 && attempt( "appendArray", [&] { a.appendArray( 0 ); } ) ) m.emplace_back(); break;
      case 0: { I const n = sim::range( 0, 40 ); attempt( "reserveValues", [&] { a.reserveValues( n ); } ); break; }
      case 1: { I const n = sim::range( 0, 12 ); attempt( "reserve", [&] { a.reserve( n ); } ); break; }
      default: if( attempt( "emplaceBack", [&] { a.emplaceBack( I( i ), Elem< T >::make( next ) ); } ) ) m[ i ].push_back( next ); ++next;
    }
  }
  void shrink()
  {
    std::size_t const i = pick( m.size() );
    if( !m[ i ].empty() ) { a.eraseFromArray( I( i ), 0 ); m[ i ].erase( m[ i ].begin() ); }
  }
  void check() const
  {
    SIM_CHECK( a.size() == I( m.size() ), "wrong-size", "the number of arrays is %lld instead of %zu", (long long) a.size(), m.size() );
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      SIM_CHECK( a.sizeOfArray( I( i ) ) == I( m[ i ].size() ), "wrong-size", "the size of %zu is %lld instead of %zu", i, (long long) a.sizeOfArray( I( i ) ), m[ i ].size() );
      for( std::size_t j = 0; j < m[ i ].size(); ++j )
        SIM_CHECK( Elem< T >::id( a( I( i ), I( j ) ) ) == m[ i ][ j ], "wrong-value", "%zu,%zu is %lld instead of %lld", i, j, (long long) Elem< T >::id( a( I( i ), I( j ) ) ), (long long) m[ i ][ j ] );
    }
  }
};

/// Rows of unique columns with values.
struct MatrixBox
{
  CRSMatrix< double, int, I, Buf > a;
  std::vector< std::map< int, Id > > m;
  int cols = 9;
  Id next = 1;

  MatrixBox()
  {
    std::size_t const n = 1 + pick( 4 );
    a.resize( I( n ), cols, sim::range( 0, 3 ) );
    m.resize( n );
  }
  void grow()
  {
    std::size_t const i = pick( m.size() );
    int const c = int( pick( std::size_t( cols ) ) );
    switch( sim::draw( 6 ) )
    {
      case 0: { I const n = sim::range( 0, 40 ); attempt( "reserveNonZeros", [&] { a.reserveNonZeros( n ); } ); break; }
      case 1: { I const n = sim::range( 0, 8 ); attempt( "reserveNonZeros of a row", [&] { a.reserveNonZeros( I( i ), n ); } ); break; }
      case 2: { I const n = sim::range( 1, 6 ); if( attempt( "resize", [&] { a.resize( n, cols, 1 ); } ) ) m.resize( std::size_t( n ) ); break; }
      case 3:
      {
        int cs[ 3 ] = { 1, 4, 8 };
        double const vs[ 3 ] = { double( next ), double( next + 1 ), double( next + 2 ) };
        if( attempt( "insertNonZeros", [&] { a.insertNonZeros( I( i ), cs, vs, 3 ); } ) ) for( int k = 0; k < 3; ++k ) m[ i ].emplace( cs[ k ], next + k );
        next += 3;
        break;
      }
      default: if( attempt( "insertNonZero", [&] { a.insertNonZero( I( i ), c, double( next ) ); } ) ) m[ i ].emplace( c, next ); ++next;
    }
  }
  void shrink()
  {
    std::size_t const i = pick( m.size() );
    if( m[ i ].empty() ) return;
    a.removeNonZero( I( i ), m[ i ].begin()->first );
    m[ i ].erase( m[ i ].begin() );
  }
  void check() const
  {
    SIM_CHECK( a.numRows() == I( m.size() ), "wrong-size", "the number of rows is %lld instead of %zu", (long long) a.numRows(), m.size() );
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      SIM_CHECK( a.numNonZeros( I( i ) ) == I( m[ i ].size() ), "wrong-size", "row %zu has %lld values instead of %zu", i, (long long) a.numNonZeros( I( i ) ), m[ i ].size() );
      I j = 0;
      for( auto const & x : m[ i ] )
      {
        SIM_CHECK( a.getColumns( I( i ) )[ j ] == x.first && a.getEntries( I( i ) )[ j ] == double( x.second ), "wrong-value", "value %lld of row %zu is %g in column %d instead of %lld in %d", (long long) j, i, a.getEntries( I( i ) )[ j ], a.getColumns( I( i ) )[ j ], (long long) x.second, x.first );
        ++j;
      }
    }
  }
};

template< typename B >
void step( B & b )
{
  if( sim::chance( 3, 4 ) ) b.grow(); else b.shrink();
  b.check();
#if defined( LVARRAY_USE_CUDA )
  if( sim::chance( 1, 3 ) )
  {
    bool const touch = flip();
    if( attempt( "move to the device", [&] { b.a.move( DEVICE, touch ); } ) ) sim::probe( "moved-to-device" );
    // what is on the host already needs no memory
    b.a.move( MemorySpace::host, true );
    b.check();
  }
#endif
}

template< typename B >
void runWith()
{
  std::unique_ptr< B > x( new B ), y( new B );
  for( int n = 0; n < 24 && sim::more( 14 ); ++n )
  {
    sim::Span span;
    step( flip() ? *x : *y );
    if( sim::chance( 1, 8 ) ) x.reset( new B ); // its memory can be released whatever happened before
  }
  x->check();
  y->check();
}

void runAny()
{
  switch( sim::draw( 10 ) )
  {
    case 8: case 9: runWith< MatrixBox >(); break;
    case 6: runWith< TableBox< std::int64_t, RAJA::PERM_IJ > >(); break;
    case 7: runWith< TableBox< double, RAJA::PERM_JI > >(); break;
    case 0: runWith< ArrayBox< std::int64_t > >(); break;
    case 1: runWith< ArrayBox< double > >(); break;
    case 2: runWith< SortedBox< std::int64_t > >(); break;
    case 3: runWith< SortedBox< int > >(); break;
    case 4: runWith< RaggedBox< double > >(); break;
    default: runWith< RaggedBox< std::int64_t > >(); break;
  }
}

} // namespace

void scenarioWarmup()
{
  LvArray::internal::getArrayManager();
  umpire::ResourceManager::getInstance();
  try { throw umpire::util::Exception( "warm up" ); } catch( umpire::util::Exception const & ) {}
}

void scenario()
{
  LeakCheck leaks;
  runAny();
  SIM_CHECK( umpire::ResourceManager::getInstance().live() == 0, "leak", "%zu allocations remain after everything was destroyed", umpire::ResourceManager::getInstance().live() );
  leaks.check( "everything was destroyed" );
}
