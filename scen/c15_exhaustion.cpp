// C15: running out of memory or capacity stops the program before damage.
// Containers with random content grow in every way they can. Allocations fail: a certain one, some, all that exceed
// what is left, or those that are too large for any memory. In-object storage and rows of views are filled over their
// capacity. An operation that did not get what it needs has to stop, with everything it was not asked to replace still
// readable in its place; an operation that got it must not stop and give the right result.
#include "common.hpp"

#include "bench_ragged.hpp"

#include <list>
#include <new>

using namespace LvArray;
using namespace scn;

namespace
{

bool g_stopped;

struct Shortage
{
  enum Kind { NONE, ONE, SOME, LIMIT };
  Kind kind;
  Shortage()
  {
    sim::NoTrack quiet;
    kind = Kind( sim::draw( 4 ) );
    if( kind == ONE ) { int const n = sim::range( 1, 3 ); sim::log( "  the %d. allocation will fail", n ); sim::failNextMalloc( n ); }
    else if( kind == SOME ) { sim::log( "  allocations fail at times" ); sim::mallocFailPolicy( 300 ); }
    else if( kind == LIMIT ) { std::size_t const n = std::size_t( sim::range( 0, 9 ) ) * 16; sim::log( "  only %zu bytes can be allocated at once", n ); sim::setMallocLimit( n ); }
  }
  ~Shortage() { end(); }
  void end() { sim::NoTrack quiet; sim::failNextMalloc( 0 ); sim::mallocFailPolicy( 0 ); sim::setMallocLimit( std::size_t( 1 ) << 24 ); kind = NONE; }
};

/// Run an operation that needs memory. True if it was carried out; otherwise the program stopped for want of memory.
template< typename F >
bool attempt( char const * const what, F const & f )
{
  std::uint64_t const before = sim::mallocFailures();
  bool stopped, thrown = false;
  {
    Shortage shortage;
    stopped = sim::stops( [&]
    {
      try { f(); }
      catch( std::bad_alloc const & ) { thrown = true; }
    } );
  }
  sim::NoTrack quiet;
  bool const failed = sim::mallocFailures() != before;
  SIM_CHECK( !thrown, "wrong-stop", "%s did not stop but threw", what );
  SIM_CHECK( !failed || stopped, "carried-on", "%s carried on although it did not get the memory it asked for", what );
  SIM_CHECK( failed || !stopped, "needless-stop", "%s stopped although every allocation succeeded: %.300s", what, sim::stopOutput().c_str() );
  if( stopped )
  {
    SIM_CHECK( sim::stopOutput().find( "***** ERROR" ) != std::string::npos, "wrong-stop", "%s stopped without an error message: %.300s", what, sim::stopOutput().c_str() );
    g_stopped = true;
    sim::probe( "stopped" );
    sim::probe( "nontrivial" );
  }
  return !stopped;
}

/// An operation that needs more than the capacity it cannot exceed.
template< typename F >
void tooMuch( char const * const what, F const & f )
{
  bool const stopped = sim::stops( f );
  sim::NoTrack quiet;
  SIM_CHECK( stopped, "carried-on", "%s carried on although it exceeds the capacity", what );
  SIM_CHECK( sim::stopOutput().find( "***** ERROR" ) != std::string::npos, "wrong-stop", "%s stopped without an error message: %.300s", what, sim::stopOutput().c_str() );
  g_stopped = true;
  sim::probe( "over-capacity" );
  sim::probe( "nontrivial" );
}

int pick( std::size_t const n ) { return int( sim::draw( std::uint32_t( n ) ) ); }

/// More values than any memory can hold; the number of bytes may not even fit into size_t.
template< typename IT >
IT huge( std::size_t const size )
{
  std::size_t const all = std::size_t( -1 ) / size;   // this many values are just less than 2^64 bytes
  std::size_t const most = std::size_t( std::numeric_limits< IT >::max() );
  std::size_t n;
  switch( sim::draw( 4 ) )
  {
    case 0: n = all / 2 + 1 + sim::draw( 3 ); break;  // as a negative number of bytes
    case 1: n = all + 1 + sim::draw( 40 ); break;     // as a small number of bytes
    case 2: n = most - sim::draw( 3 ); break;
    default: n = ( std::size_t( 1 ) << 28 ) + sim::draw( 3 ); break;
  }
  // the containers compute the product of this and other numbers up to 8
  return IT( std::min( n, most - 2 ) );
}

// ------------------------------------------------------------------ arrays of one to three dimensions
template< typename A, typename IT > void resizeAll( A & a, IT const ( &d )[ 1 ] ) { a.resize( d[ 0 ] ); }
template< typename A, typename IT > void resizeAll( A & a, IT const ( &d )[ 2 ] ) { a.resize( d[ 0 ], d[ 1 ] ); }
template< typename A, typename IT > void resizeAll( A & a, IT const ( &d )[ 3 ] ) { a.resize( d[ 0 ], d[ 1 ], d[ 2 ] ); }

template< typename T, int N > using Small = StackBuffer< T, N >;
template< typename T > using Stack5 = StackBuffer< T, 5 >;
template< typename T > using Stack12 = StackBuffer< T, 12 >;

template< template< typename > class BUF > struct Cap { static constexpr I value = -1; };
template<> struct Cap< Stack5 > { static constexpr I value = 5; };
template<> struct Cap< Stack12 > { static constexpr I value = 12; };

template< typename T, int NDIM, typename PERM, typename IT, template< typename > class BUF >
struct NdBox
{
  using E = Elem< T >;
  using A = Array< T, NDIM, PERM, IT, BUF >;
  static constexpr I CAP = Cap< BUF >::value;
  // memory next to the array that belongs to nobody
  struct { T before[ 4 ]; A a; T after[ 4 ]; } box;
  A & a = box.a;
  std::vector< Id > m;       // as it lies in memory
  Id next = 100;

  NdBox() { guard( true ); }
  ~NdBox() { guard( false ); }
  void guard( bool const on )
  {
    sim::NoTrack quiet;
    if( on ) { sim::forbid( box.before, sizeof( box.before ) ); sim::forbid( box.after, sizeof( box.after ) ); }
    else { sim::allow( box.before, sizeof( box.before ) ); sim::allow( box.after, sizeof( box.after ) ); }
  }

  static I product( IT const ( &d )[ NDIM ] ) { I n = 1; for( IT const x : d ) n *= x; return n; }

  void fill()
  {
    m.resize( std::size_t( a.size() ) );
    for( I k = 0; k < a.size(); ++k ) { a.data()[ k ] = E::make( next ); m[ std::size_t( k ) ] = next++; }
  }
  void build()
  {
    IT d[ NDIM ];
    for( IT & x : d ) x = IT( sim::range( 0, 3 ) );
    if( CAP > 0 && product( d ) > CAP ) for( IT & x : d ) x = 1;
    resizeAll( a, d );
    fill();
    sim::log( "%d dimensions of %s: %zu values%s", NDIM, E::name(), m.size(), CAP > 0 ? " in the object" : "" );
  }

  template< typename F > bool run( char const * const what, I const needed, F const & f )
  {
    if( CAP > 0 && needed > CAP ) { tooMuch( what, f ); return false; }
    return attempt( what, f );
  }

  void oneDimension( std::integral_constant< int, 1 > )
  {
    I const n = I( m.size() );
    int const what = int( sim::draw( 4 ) );
    I const count = what < 2 ? 1 : sim::range( 0, CAP > 0 ? 8 : 20 );
    I const pos = what == 0 ? n : sim::range( 0, int( n ) );
    std::vector< T > some;
    std::vector< Id > ids;
    for( I k = 0; k < count; ++k ) { some.push_back( E::make( next ) ); ids.push_back( next++ ); }
    sim::log( "%s %lld at %lld", what == 0 ? "emplace_back" : what == 1 ? "emplace" : "insert", (long long) count, (long long) pos );
    bool const done = run( what == 0 ? "emplace_back" : what == 1 ? "emplace" : "insert", n + count, [&]
    {
      if( what == 0 ) a.emplace_back( some[ 0 ] );
      else if( what == 1 ) a.emplace( IT( pos ), some[ 0 ] );
      else if( what == 2 ) a.insert( IT( pos ), some.begin(), some.end() );
      else { std::list< T > const l( some.begin(), some.end() ); sim::NoPreempt quiet; a.insert( IT( pos ), l.begin(), l.end() ); }
    } );
    if( done ) m.insert( m.begin() + pos, ids.begin(), ids.end() );
  }
  template< int K > void oneDimension( std::integral_constant< int, K > ) { shape(); }

  void shape()
  {
    IT d[ NDIM ];
    for( IT & x : d ) x = IT( sim::range( 0, CAP > 0 ? 4 : 9 ) );
    bool const byPointer = sim::chance( 1, 2 );
    I const n = product( d );
    sim::log( "resize to %lld values", (long long) n );
    if( run( "resize", n, [&] { if( byPointer ) a.resize( NDIM, d ); else resizeAll( a, d ); } ) ) fill();
  }

  void step()
  {
    sim::Span span;
    switch( sim::draw( 9 ) )
    {
      case 0: case 1: case 2: oneDimension( std::integral_constant< int, NDIM >() ); break;
      case 3: case 4: shape(); break;
      case 5:
      {
        IT const n = IT( sim::range( 0, 30 ) );
        sim::log( "reserve %lld", (long long) n );
        run( "reserve", I( n ), [&] { a.reserve( n ); } );
        break;
      }
      case 6:
      {
        IT const n = huge< IT >( sizeof( T ) );
        sim::log( "reserve %lld", (long long) n );
        sim::probe( "far-too-much" );
        tooMuch( "reserve", [&] { a.reserve( n ); } );
        break;
      }
      case 7:
      {
        IT d[ NDIM ];
        for( IT & x : d ) x = 1;
        d[ pick( NDIM ) ] = huge< IT >( sizeof( T ) );
        sim::log( "resize to %lld", (long long) product( d ) );
        sim::probe( "far-too-much" );
        tooMuch( "resize", [&] { resizeAll( a, d ); } );
        break;
      }
      default:
      {
        bool const assign = sim::chance( 1, 2 );
        sim::log( "copy" );
        sim::probe( "copied" );
        std::unique_ptr< A > b;
        if( assign ) { b.reset( new A ); IT d[ NDIM ]; for( IT & x : d ) x = 1; resizeAll( *b, d ); b->data()[ 0 ] = E::make( 3 ); }
        bool const done = run( "copy", I( m.size() ), [&] { if( assign ) *b = a; else b.reset( new A( a ) ); } );
        if( !done ) { b.release(); break; }
        SIM_CHECK( b->size() == a.size(), "wrong-result", "a copy has %lld values instead of %lld", (long long) b->size(), (long long) a.size() );
        for( I k = 0; k < I( m.size() ); ++k ) SIM_CHECK( E::id( b->data()[ k ] ) == m[ std::size_t( k ) ], "wrong-result", "value %lld of a copy is wrong", (long long) k );
        break;
      }
    }
  }
  void verify()
  {
    if( !g_stopped ) SIM_CHECK( I( m.size() ) == I( a.size() ), "wrong-result", "the array has %lld values instead of %zu", (long long) a.size(), m.size() );
    for( I k = 0; k < I( m.size() ); ++k )
    {
      Id const x = E::id( a.data()[ k ] );
      SIM_CHECK( x == m[ std::size_t( k ) ], g_stopped ? "value-lost" : "wrong-result", "value %lld is %lld instead of %lld", (long long) k, (long long) x, (long long) m[ std::size_t( k ) ] );
    }
  }
};

// ------------------------------------------------------------------ sorted arrays
template< typename T, typename IT, template< typename > class BUF >
struct SortedBox
{
  using E = Elem< T >;
  static constexpr I CAP = Cap< BUF >::value;
  struct { T before[ 4 ]; SortedArray< T, IT, BUF > a; T after[ 4 ]; } box;
  SortedArray< T, IT, BUF > & a = box.a;
  std::set< Id > m;

  SortedBox() { sim::NoTrack quiet; sim::forbid( box.before, sizeof( box.before ) ); sim::forbid( box.after, sizeof( box.after ) ); }
  ~SortedBox() { sim::NoTrack quiet; sim::allow( box.before, sizeof( box.before ) ); sim::allow( box.after, sizeof( box.after ) ); }

  void build()
  {
    for( int n = sim::range( 0, CAP > 0 ? 5 : 8 ); n > 0; --n ) { Id const x = sim::range( 0, 40 ); m.insert( x ); a.insert( E::make( x ) ); }
    sim::log( "sorted array of %s: %zu values%s", E::name(), m.size(), CAP > 0 ? " in the object" : "" );
  }
  void step()
  {
    sim::Span span;
    int const what = int( sim::draw( 6 ) );
    if( what == 5 )
    {
      IT const n = huge< IT >( sizeof( T ) );
      sim::log( "reserve %lld", (long long) n );
      sim::probe( "far-too-much" );
      tooMuch( "reserve", [&] { a.reserve( n ); } );
      return;
    }
    if( what == 4 )
    {
      sim::log( "copy" );
      sim::probe( "copied" );
      SortedArray< T, IT, BUF > * b = nullptr;
      if( !attempt( "copy", [&] { b = new SortedArray< T, IT, BUF >( a ); } ) ) return;
      SIM_CHECK( I( b->size() ) == I( m.size() ), "wrong-result", "a copy has %lld values", (long long) b->size() );
      delete b;
      return;
    }
    if( what == 3 )
    {
      IT const n = IT( sim::range( 0, 30 ) );
      sim::log( "reserve %lld", (long long) n );
      if( CAP > 0 && n > CAP ) tooMuch( "reserve", [&] { a.reserve( n ); } );
      else attempt( "reserve", [&] { a.reserve( n ); } );
      return;
    }
    std::set< Id > ids, after = m;
    for( int n = what == 0 ? 1 : sim::range( 0, 9 ); n > 0; --n ) ids.insert( sim::range( 0, 40 ) );
    after.insert( ids.begin(), ids.end() );
    std::vector< T > values;
    for( Id const x : ids ) values.push_back( E::make( x ) );
    sim::log( "insert %s", scn::show( std::vector< Id >( ids.begin(), ids.end() ) ).c_str() );
    auto const f = [&] { if( what == 0 ) a.insert( values[ 0 ] ); else a.insert( values.begin(), values.end() ); };
    if( CAP > 0 && I( after.size() ) > CAP ) { tooMuch( "insert", f ); return; }
    if( attempt( "insert", f ) ) m = after;
  }
  void verify()
  {
    if( !g_stopped ) SIM_CHECK( I( m.size() ) == I( a.size() ), "wrong-result", "there are %lld values instead of %zu", (long long) a.size(), m.size() );
    I k = 0;
    for( Id const y : m )
    {
      Id const x = E::id( a.data()[ k ] );
      SIM_CHECK( x == y, g_stopped ? "value-lost" : "wrong-result", "value %lld is %lld instead of %lld", (long long) k, (long long) x, (long long) y );
      ++k;
    }
  }
};

// ------------------------------------------------------------------ ragged arrays
using Rows = std::vector< std::vector< Id > >;

template< typename T, typename IT >
struct RaggedBox
{
  using E = Elem< T >;
  using A = ArrayOfArrays< T, IT, MallocBuffer >;
  A a;
  Rows m;
  Id next = 1;

  std::vector< T > some( std::vector< Id > & ids, int const most )
  {
    std::vector< T > v;
    for( int k = sim::range( 0, most ); k > 0; --k ) { v.push_back( E::make( next ) ); ids.push_back( next++ ); }
    return v;
  }
  void build()
  {
    MayRelocate relocate;
    for( int n = sim::range( 0, 5 ); n > 0; --n )
    {
      m.push_back( {} );
      std::vector< T > const s = some( m.back(), 4 );
      a.appendArray( s.begin(), s.end() );
    }
    sim::log( "ragged array of %s: %zu rows", E::name(), m.size() );
  }
  void step()
  {
    sim::Span span;
    MayRelocate relocate;
    std::vector< Id > ids;
    int what = int( sim::draw( 14 ) );
    if( m.empty() && ( ( what >= 5 && what <= 9 ) || what == 12 ) ) what = 0;
    IT const i = m.empty() ? 0 : IT( pick( m.size() ) );
    auto & r = m.empty() ? ids : m[ std::size_t( i ) ];
    switch( what )
    {
      case 0:
      {
        std::vector< T > const s = some( ids, 6 );
        sim::log( "appendArray of %zu", s.size() );
        if( attempt( "appendArray", [&] { a.appendArray( s.begin(), s.end() ); } ) ) m.push_back( ids );
        break;
      }
      case 1:
      {
        IT const n = IT( sim::range( 0, 6 ) );
        sim::log( "appendArray of default values, %lld", (long long) n );
        if( attempt( "appendArray", [&] { a.appendArray( n ); } ) ) m.push_back( std::vector< Id >( std::size_t( n ), 0 ) );
        break;
      }
      case 2:
      {
        std::vector< T > const s = some( ids, 6 );
        IT const at = IT( sim::range( 0, int( m.size() ) ) );
        sim::log( "insertArray of %zu at %lld", s.size(), (long long) at );
        if( attempt( "insertArray", [&] { a.insertArray( at, s.begin(), s.end() ); } ) ) m.insert( m.begin() + at, ids );
        else if( I( a.size() ) > I( m.size() ) ) m.insert( m.begin() + at, std::vector< Id >() ); // the room for its values was missing
        break;
      }
      case 3:
      {
        IT const n = IT( m.size() + std::size_t( sim::range( 0, 6 ) ) ), c = IT( sim::range( 0, 4 ) );
        sim::log( "resize to %lld rows of %lld", (long long) n, (long long) c );
        if( attempt( "resize", [&] { a.resize( n, c ); } ) ) m.resize( std::size_t( n ) );
        break;
      }
      case 4:
      {
        bool const rows = sim::chance( 1, 2 );
        bool const far = sim::chance( 1, 3 );
        IT const n = far ? huge< IT >( sizeof( T ) ) : IT( sim::range( 0, 40 ) );
        sim::log( "reserve %lld %s", (long long) n, rows ? "rows" : "values" );
        auto const f = [&] { if( rows ) a.reserve( n ); else a.reserveValues( n ); };
        if( far ) { sim::probe( "far-too-much" ); tooMuch( "reserve", f ); }
        else attempt( "reserve", f );
        break;
      }
      case 5: case 6:
      {
        std::vector< T > const s = some( ids, what == 5 ? 1 : 7 );
        sim::log( "append %zu to row %lld", s.size(), (long long) i );
        if( s.empty() ) break;
        auto const f = [&] { if( what == 5 ) a.emplaceBack( i, s[ 0 ] ); else a.appendToArray( i, s.begin(), s.end() ); };
        if( attempt( "append", f ) ) r.insert( r.end(), ids.begin(), ids.end() );
        break;
      }
      case 7:
      {
        std::vector< T > const s = some( ids, 7 );
        IT const j = IT( sim::range( 0, int( r.size() ) ) );
        bool const one = s.size() == 1;
        sim::log( "insert %zu to row %lld at %lld", s.size(), (long long) i, (long long) j );
        auto const f = [&] { if( one ) a.emplace( i, j, s[ 0 ] ); else a.insertIntoArray( i, j, s.begin(), s.end() ); };
        if( attempt( "insert", f ) ) r.insert( r.begin() + j, ids.begin(), ids.end() );
        break;
      }
      case 8:
      {
        IT const n = IT( r.size() + std::size_t( sim::range( 0, 8 ) ) );
        sim::log( "resizeArray %lld to %lld", (long long) i, (long long) n );
        if( attempt( "resizeArray", [&] { a.resizeArray( i, n ); } ) ) r.resize( std::size_t( n ), 0 );
        break;
      }
      case 9:
      {
        IT const n = IT( r.size() + std::size_t( sim::range( 0, 8 ) ) );
        sim::log( "setCapacityOfArray %lld to %lld", (long long) i, (long long) n );
        attempt( "setCapacityOfArray", [&] { a.setCapacityOfArray( i, n ); } );
        break;
      }
      case 12:
      { // through a view, which cannot reallocate
        std::vector< T > const s = some( ids, 6 );
        if( s.empty() ) break;
        auto const v = a.toView();
        int const how = int( sim::draw( 4 ) );
        bool const one = how == 0 || how == 3;
        std::size_t const n = one ? 1 : s.size();
        if( one ) ids.resize( 1 );
        IT const j = IT( sim::range( 0, int( r.size() ) ) );
        bool const fits = IT( r.size() + n ) <= a.capacityOfArray( i );
        sim::log( "view puts %zu to row %lld (%s)%s", n, (long long) i, how == 0 ? "atomically" : how == 1 ? "append" : how == 2 ? "insert" : "emplace", fits ? "" : ", too many" );
        auto const f = [&]
        {
          if( how == 0 ) v.template emplaceBackAtomic< RAJA::builtin_atomic >( i, s[ 0 ] );
          else if( how == 1 ) v.appendToArray( i, s.begin(), s.end() );
          else if( how == 2 ) v.insertIntoArray( i, j, s.begin(), s.end() );
          else v.emplace( i, j, s[ 0 ] );
        };
        if( fits )
        {
          f();
          r.insert( r.begin() + ( how < 2 ? std::ptrdiff_t( r.size() ) : std::ptrdiff_t( j ) ), ids.begin(), ids.end() );
          sim::probe( "view-fits" );
        }
#if defined( LVARRAY_BOUNDS_CHECK )
        else
        {
          tooMuch( "adding through a view", f );
          if( how == 0 )
          { // the place was already taken, the values before are there
            for( std::size_t k = 0; k < r.size(); ++k )
            { Id const x = E::id( a.toViewConst()[ i ][ IT( k ) ] ); SIM_CHECK( x == r[ k ], "value-lost", "value %zu of the full row is %lld instead of %lld", k, (long long) x, (long long) r[ k ] ); }
            abandoned = true;
          }
        }
#endif
        break;
      }
      case 10:
      {
        sim::log( "copy" );
        sim::probe( "copied" );
        bool const assign = sim::chance( 1, 2 );
        A * b = nullptr;
        if( assign ) { b = new A; b->resize( 2, 3 ); b->emplaceBack( 1, E::make( 4 ) ); }
        if( !attempt( "copy", [&] { if( assign ) *b = a; else b = new A( a ); } ) ) break;
        check( *b, "a copy" );
        delete b;
        break;
      }
      case 11:
      {
        sim::log( "take over sets" );
        sim::probe( "taken-over" );
        ArrayOfSets< T, IT, MallocBuffer > sets;
        sets.appendSet( 2 );
        sets.insertIntoSet( 0, E::make( 5 ) );
        attempt( "assimilate", [&] { a.assimilate( std::move( sets ) ); } );
        m = { { 5 } };
        break;
      }
      default:
      {
        IT caps[ 5 ];
        int const n = sim::range( 0, 5 );
        for( IT & c : caps ) c = IT( sim::range( 0, 4 ) );
        sim::log( "resizeFromCapacities of %d", n );
        bool const done = attempt( "resizeFromCapacities", [&] { a.template resizeFromCapacities< RAJA::loop_exec >( IT( n ), caps ); } );
        m.clear();
        if( done ) m.resize( std::size_t( n ) );   // it clears the array first
        else abandoned = true;
        break;
      }
    }
  }
  bool abandoned = false;

  void check( A const & b, char const * const who )
  {
    if( !g_stopped ) SIM_CHECK( I( m.size() ) == I( b.size() ), "wrong-result", "%s has %lld rows instead of %zu", who, (long long) b.size(), m.size() );
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      std::vector< Id > x;
      for( IT j = 0; j < b.sizeOfArray( IT( i ) ); ++j ) x.push_back( E::id( b( IT( i ), j ) ) );
      SIM_CHECK( x == m[ i ], g_stopped ? "value-lost" : "wrong-result", "row %zu of %s is %s instead of %s", i, who, scn::show( x ).c_str(), scn::show( m[ i ] ).c_str() );
    }
  }
  void verify() { if( !abandoned ) check( a, "the array" ); }
};

// ------------------------------------------------------------------ sets, patterns and matrices
struct SetsKind
{
  static constexpr bool hasEntries = false;
  static char const * name() { return "sets"; }
};
struct PatternKind
{
  static constexpr bool hasEntries = false;
  static char const * name() { return "pattern"; }
};
template< typename V > struct MatrixKind
{
  static constexpr bool hasEntries = true;
  static char const * name() { return "matrix"; }
};

// the same operations of all kinds under one name
template< typename T, typename IT > struct Ops;
template< typename T, typename IT > struct Ops< SetsKind, std::pair< T, IT > >
{
  using C = ArrayOfSets< T, IT, MallocBuffer >;
  static void rows( C & c, IT n, IT cap ) { c.resize( n, cap ); }
  static bool append( C & c, IT cap ) { c.appendSet( cap ); return true; }
  static void reserveRows( C & c, IT n ) { c.reserve( n ); }
  static void reserveValues( C & c, IT n ) { c.reserveValues( n ); }
  static void capacity( C & c, IT i, IT n ) { c.setCapacityOfSet( i, n ); }
  static IT capacityOf( C const & c, IT i ) { return c.capacityOfSet( i ); }
  static void insert( C & c, IT i, T const & x, Id ) { c.insertIntoSet( i, x ); }
  template< typename VALUES, typename IDS > static void insertMany( C & c, IT i, VALUES const & x, IDS const & ) { c.insertIntoSet( i, x.begin(), x.end() ); }
  static void insertView( C & c, IT i, T const & x, Id ) { c.toView().insertIntoSet( i, x ); }
  template< typename VALUES, typename IDS > static void insertManyView( C & c, IT i, VALUES const & x, IDS const & ) { c.toView().insertIntoSet( i, x.begin(), x.end() ); }
  static I size( C const & c ) { return c.size(); }
  static IT sizeOf( C const & c, IT i ) { return c.sizeOfSet( i ); }
  static Id value( C const & c, IT i, IT j ) { return Elem< T >::id( c( i, j ) ); }
  static Id entry( C const &, IT, IT ) { return 0; }
  static bool take( C & ) { return false; }
  static void fromCapacities( C & c, IT n, IT const * caps ) { c.template resizeFromCapacities< RAJA::loop_exec >( n, caps ); }
};
template< typename T, typename IT > struct Ops< PatternKind, std::pair< T, IT > >
{
  using C = SparsityPattern< T, IT, MallocBuffer >;
  static void rows( C & c, IT n, IT cap ) { c.resize( n, 41, cap ); }
  static bool append( C & c, IT cap ) { c.appendRow( cap ); return true; }
  static void reserveRows( C & c, IT n ) { c.reserveRows( n ); }
  static void reserveValues( C & c, IT n ) { c.reserveNonZeros( n ); }
  static void capacity( C & c, IT i, IT n ) { c.setRowCapacity( i, n ); }
  static IT capacityOf( C const & c, IT i ) { return c.nonZeroCapacity( i ); }
  static void insert( C & c, IT i, T const & x, Id ) { c.insertNonZero( i, x ); }
  template< typename VALUES, typename IDS > static void insertMany( C & c, IT i, VALUES const & x, IDS const & ) { c.insertNonZeros( i, x.begin(), x.end() ); }
  static void insertView( C & c, IT i, T const & x, Id ) { c.toView().insertNonZero( i, x ); }
  template< typename VALUES, typename IDS > static void insertManyView( C & c, IT i, VALUES const & x, IDS const & ) { c.toView().insertNonZeros( i, x.begin(), x.end() ); }
  static I size( C const & c ) { return c.numRows(); }
  static IT sizeOf( C const & c, IT i ) { return c.numNonZeros( i ); }
  static Id value( C const & c, IT i, IT j ) { return Id( c.getColumns( i )[ j ] ); }
  static Id entry( C const &, IT, IT ) { return 0; }
  static bool take( C & ) { return false; }
  static void fromCapacities( C & c, IT n, IT const * caps ) { c.template resizeFromRowCapacities< RAJA::loop_exec >( n, 41, caps ); }
};
template< typename V, typename T, typename IT > struct Ops< MatrixKind< V >, std::pair< T, IT > >
{
  using C = CRSMatrix< V, T, IT, MallocBuffer >;
  static void rows( C & c, IT n, IT cap ) { c.resize( n, 41, cap ); }
  static bool append( C &, IT ) { return false; }
  static void reserveRows( C &, IT ) {}
  static void reserveValues( C & c, IT n ) { c.reserveNonZeros( n ); }
  static void capacity( C & c, IT i, IT n ) { c.setRowCapacity( i, n ); }
  static IT capacityOf( C const & c, IT i ) { return c.nonZeroCapacity( i ); }
  static void insert( C & c, IT i, T const & x, Id e ) { V const v = Elem< V >::make( e ); c.insertNonZero( i, x, v ); }
  template< typename VALUES, typename IDS > static void insertMany( C & c, IT i, VALUES const & x, IDS const & ids )
  {
    std::vector< V > e;
    for( Id const k : ids ) e.push_back( Elem< V >::make( k ) );
    c.insertNonZeros( i, x.data(), e.data(), IT( x.size() ) );
  }
  static void insertView( C & c, IT i, T const & x, Id e ) { V const v = Elem< V >::make( e ); c.toView().insertNonZero( i, x, v ); }
  template< typename VALUES, typename IDS > static void insertManyView( C & c, IT i, VALUES const & x, IDS const & ids )
  {
    std::vector< V > e;
    for( Id const k : ids ) e.push_back( Elem< V >::make( k ) );
    c.toView().insertNonZeros( i, x.data(), e.data(), IT( x.size() ) );
  }
  static I size( C const & c ) { return c.numRows(); }
  static IT sizeOf( C const & c, IT i ) { return c.numNonZeros( i ); }
  static Id value( C const & c, IT i, IT j ) { return Id( c.getColumns( i )[ j ] ); }
  static Id entry( C const & c, IT i, IT j ) { return Elem< V >::id( c.getEntries( i )[ j ] ); }
  static void fromCapacities( C & c, IT n, IT const * caps ) { c.template resizeFromRowCapacities< RAJA::loop_exec >( n, 41, caps ); }
};

template< typename KIND, typename T, typename IT >
struct KeyedBox
{
  using E = Elem< T >;
  using O = Ops< KIND, std::pair< T, IT > >;
  using C = typename O::C;
  C a;
  std::vector< std::map< Id, Id > > m;
  bool abandoned = false;

  static Id entryOf( Id const x, std::size_t const i ) { return KIND::hasEntries ? 1000 + 50 * Id( i ) + x : 0; }

  void build()
  {
    MayRelocate relocate;
    IT const n = IT( sim::range( 0, 5 ) );
    O::rows( a, n, IT( sim::range( 0, 4 ) ) );
    m.resize( std::size_t( n ) );
    for( std::size_t i = 0; i < m.size(); ++i )
      for( int k = sim::range( 0, 5 ); k > 0; --k )
      {
        Id const x = sim::range( 0, 40 );
        O::insert( a, IT( i ), E::make( x ), entryOf( x, i ) );
        m[ i ].emplace( x, entryOf( x, i ) );
      }
    sim::log( "%s: %zu rows", KIND::name(), m.size() );
  }

  void takePattern( std::false_type ) {}
  void takePattern( std::true_type )
  {
    sim::log( "take over a pattern" );
    sim::probe( "taken-over" );
    SparsityPattern< T, IT, MallocBuffer > p( 2, 41, 3 );
    p.insertNonZero( 0, T( 4 ) );
    p.insertNonZero( 1, T( 2 ) );
    p.insertNonZero( 1, T( 9 ) );
    bool const done = attempt( "assimilate", [&] { a.template assimilate< RAJA::loop_exec >( std::move( p ) ); } );
    if( done ) { m = { { { 4, 0 } }, { { 2, 0 }, { 9, 0 } } }; return; }
    abandoned = true;     // the entries are replaced
    SIM_CHECK( p.numRows() == 2 && p.numNonZeros( 0 ) == 1 && p.numNonZeros( 1 ) == 2 && p.getColumns( 0 )[ 0 ] == T( 4 ) && p.getColumns( 1 )[ 1 ] == T( 9 ), "value-lost", "the pattern to take over is damaged" );
  }

  void step()
  {
    sim::Span span;
    MayRelocate relocate;
    int what = int( sim::draw( 12 ) );
    if( m.empty() && what >= 5 && what <= 9 ) what = 1;
    std::size_t const i = m.empty() ? 0 : std::size_t( pick( m.size() ) );
    switch( what )
    {
      case 0:
      {
        IT const c = IT( sim::range( 0, 6 ) );
        if( std::is_same< KIND, SetsKind >::value || std::is_same< KIND, PatternKind >::value )
        {
          sim::log( "append a row of %lld", (long long) c );
          if( attempt( "append", [&] { O::append( a, c ); } ) ) m.push_back( {} );
        }
        break;
      }
      case 1: case 2:
      {
        IT const n = IT( m.size() + std::size_t( sim::range( 0, 6 ) ) ), c = IT( sim::range( 0, 4 ) );
        sim::log( "resize to %lld rows of %lld", (long long) n, (long long) c );
        if( attempt( "resize", [&] { O::rows( a, n, c ); } ) ) m.resize( std::size_t( n ) );
        break;
      }
      case 3: case 4:
      {
        bool const rows = what == 3 && !KIND::hasEntries;
        bool const far = sim::chance( 1, 3 );
        IT const n = far ? huge< IT >( sizeof( T ) ) : IT( sim::range( 0, 40 ) );
        sim::log( "reserve %lld %s", (long long) n, rows ? "rows" : "values" );
        auto const f = [&] { if( rows ) O::reserveRows( a, n ); else O::reserveValues( a, n ); };
        if( far ) { sim::probe( "far-too-much" ); tooMuch( "reserve", f ); }
        else attempt( "reserve", f );
        break;
      }
      case 5: case 6: case 7:
      {
        bool const view = sim::chance( 1, 3 );
        std::set< Id > ids;
        for( int k = what == 5 ? 1 : sim::range( 0, 8 ); k > 0; --k ) ids.insert( sim::range( 0, 40 ) );
        std::map< Id, Id > after = m[ i ];
        std::vector< T > values;
        std::vector< Id > entries;
        for( Id const x : ids ) { values.push_back( E::make( x ) ); entries.push_back( entryOf( x, i ) ); after.emplace( x, entryOf( x, i ) ); }
        sim::log( "%sinsert %s to row %zu", view ? "view " : "", scn::show( std::vector< Id >( ids.begin(), ids.end() ) ).c_str(), i );
        bool const one = what == 5;
        if( view )
        {
          bool const fits = IT( after.size() ) <= O::capacityOf( a, IT( i ) );
          auto const f = [&] { if( one ) O::insertView( a, IT( i ), values[ 0 ], entries[ 0 ] ); else O::insertManyView( a, IT( i ), values, entries ); };
          if( fits ) f(), m[ i ] = after;
#if defined( LVARRAY_BOUNDS_CHECK )
          else tooMuch( "insert through a view", f );
#endif
          break;
        }
        auto const f = [&] { if( one ) O::insert( a, IT( i ), values[ 0 ], entries[ 0 ] ); else O::insertMany( a, IT( i ), values, entries ); };
        if( attempt( "insert", f ) ) m[ i ] = after;
        break;
      }
      case 8: case 9:
      {
        IT const n = IT( m[ i ].size() + std::size_t( sim::range( 0, 8 ) ) );
        sim::log( "capacity of row %zu to %lld", i, (long long) n );
        attempt( "set capacity", [&] { O::capacity( a, IT( i ), n ); } );
        break;
      }
      case 10:
      {
        sim::log( "copy" );
        sim::probe( "copied" );
        bool const assign = sim::chance( 1, 2 );
        C * b = nullptr;
        if( assign ) { b = new C; O::rows( *b, 2, 3 ); O::insert( *b, 1, E::make( 4 ), 7 ); }
        if( !attempt( "copy", [&] { if( assign ) *b = a; else b = new C( a ); } ) ) break;
        check( *b, "a copy" );
        delete b;
        break;
      }
      default:
      {
        if( sim::chance( 1, 2 ) ) { takePattern( std::integral_constant< bool, KIND::hasEntries >() ); break; }
        IT caps[ 5 ];
        int const n = sim::range( 0, 5 );
        for( IT & c : caps ) c = IT( sim::range( 0, 4 ) );
        sim::log( "from %d capacities", n );
        bool const done = attempt( "resizeFromCapacities", [&] { O::fromCapacities( a, IT( n ), caps ); } );
        m.clear();
        if( done ) m.resize( std::size_t( n ) );   // it clears the container first
        else abandoned = true;
        break;
      }
    }
  }

  void check( C const & b, char const * const who )
  {
    if( !g_stopped ) SIM_CHECK( I( m.size() ) == O::size( b ), "wrong-result", "%s has %lld rows instead of %zu", who, (long long) O::size( b ), m.size() );
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      std::vector< Id > x, y, ex, ey;
      for( IT j = 0; j < O::sizeOf( b, IT( i ) ); ++j ) { x.push_back( O::value( b, IT( i ), j ) ); ex.push_back( O::entry( b, IT( i ), j ) ); }
      for( auto const & e : m[ i ] ) { y.push_back( e.first ); ey.push_back( e.second ); }
      SIM_CHECK( x == y, g_stopped ? "value-lost" : "wrong-result", "row %zu of %s is %s instead of %s", i, who, scn::show( x ).c_str(), scn::show( y ).c_str() );
      SIM_CHECK( ex == ey, g_stopped ? "value-lost" : "wrong-result", "the entries of row %zu of %s are %s instead of %s", i, who, scn::show( ex ).c_str(), scn::show( ey ).c_str() );
    }
  }
  void verify() { if( !abandoned ) check( a, "the container" ); }
};

// ------------------------------------------------------------------ a run
template< typename BOX >
void run()
{
  LeakCheck leaks;
  g_stopped = false;
  std::unique_ptr< BOX > box( new BOX );
  box->build();
  box->verify();
  for( int n = 0; n < 16 && !g_stopped && sim::more( 12 ); ++n )
  {
    box->step();
    box->verify();
  }
  if( g_stopped ) { box.release(); return; } // the process has ended
  box.reset();
  leaks.check( "everything was destroyed" );
}

} // namespace

void scenarioWarmup() {}

void scenario()
{
  switch( sim::draw( 21 ) )
  {
    case 0: run< NdBox< std::int64_t, 1, RAJA::PERM_I, I, MallocBuffer > >(); break;
    case 1: run< NdBox< Tracked, 1, RAJA::PERM_I, int, MallocBuffer > >(); break;
    case 2: run< NdBox< std::string, 1, RAJA::PERM_I, I, MallocBuffer > >(); break;
    case 3: run< NdBox< int, 2, RAJA::PERM_JI, I, MallocBuffer > >(); break;
    case 4: run< NdBox< Tracked, 3, RAJA::PERM_KJI, I, MallocBuffer > >(); break;
    case 5: run< NdBox< int, 1, RAJA::PERM_I, I, Stack5 > >(); break;
    case 6: run< NdBox< double, 1, RAJA::PERM_I, int, Stack12 > >(); break;
    case 7: run< NdBox< std::int64_t, 2, RAJA::PERM_IJ, int, Stack12 > >(); break;
    case 8: run< SortedBox< std::int64_t, I, MallocBuffer > >(); break;
    case 9: run< SortedBox< Tracked, int, MallocBuffer > >(); break;
    case 10: run< SortedBox< int, I, Stack5 > >(); break;
    case 11: run< RaggedBox< std::int64_t, I > >(); break;
    case 12: run< RaggedBox< Tracked, I > >(); break;
    case 13: run< RaggedBox< int, int > >(); break;
    case 14: run< RaggedBox< std::string, I > >(); break;
    case 15: run< KeyedBox< SetsKind, std::int64_t, I > >(); break;
    case 16: run< KeyedBox< SetsKind, Tracked, int > >(); break;
    case 17: run< KeyedBox< PatternKind, int, I > >(); break;
    case 18: run< KeyedBox< MatrixKind< double >, int, I > >(); break;
    case 19: run< KeyedBox< MatrixKind< Tracked >, int, I > >(); break;
    default: run< KeyedBox< MatrixKind< int >, std::int64_t, int > >(); break;
  }
}
