// C16: a build with bounds checking stops invalid accesses before they touch memory, and nothing valid.
// Containers with random content and spare room; each operation gets arguments that are valid, just outside or far
// outside. What is not a value of the container may not be read or written while an invalid operation runs, the
// program has to stop, the message has to name the argument, and everything is as it was.
#include "common.hpp"

#include "bench_ragged.hpp"

#include <list>

using namespace LvArray;
using namespace scn;

namespace
{

#if defined( NDEBUG )
constexpr bool asserted = false;  // requirements on the input that only assertions test
#else
constexpr bool asserted = true;
#endif

bool g_sawStop;

/// The number an argument is out of range with: just below, at the end, a little or far beyond.
template< typename IT >
IT outside( std::size_t const n )
{
  switch( sim::draw( 6 ) )
  {
    case 0: return IT( n );
    case 1: return IT( -1 );
    case 2: return IT( n + std::size_t( sim::range( 1, 5 ) ) );
    case 3: return IT( -sim::range( 2, 9 ) );
    case 4: return IT( 1000000 + sim::range( 0, 1000 ) );
    default: return std::numeric_limits< IT >::min() + IT( sim::range( 0, 3 ) );
  }
}

/// Of the text before the stack trace: what follows the controlling expression.
std::string reason()
{
  std::string s = sim::stopOutput();
  std::size_t const e = s.find( "** StackTrace" );
  if( e != std::string::npos ) s.resize( e );
  std::size_t const b = s.find( "Controlling expression" );
  if( b == std::string::npos ) return "";
  std::size_t const nl = s.find( '\n', b );
  return nl == std::string::npos ? "" : s.substr( nl + 1 );
}

/// An operation that the program has to stop in.
template< typename F >
void invalid( char const * const what, std::vector< Id > const & named, F const & f )
{
  bool stopped;
  std::string why, text;
  stopped = sim::stops( f );
  sim::NoTrack quiet;
  std::string args;
  for( Id const x : named ) args += " " + std::to_string( x );
  SIM_CHECK( stopped, "not-stopped", "%s with%s was carried out", what, args.c_str() );
  g_sawStop = true;
  sim::probe( "stopped" );
  sim::probe( "nontrivial" );
  text = sim::stopOutput();
  SIM_CHECK( text.find( "***** ERROR" ) != std::string::npos && text.find( "***** LOCATION: " ) != std::string::npos, "wrong-message", "%s with%s: the report has no location: %.200s", what, args.c_str(), text.c_str() );
  why = reason();
  if( !named.empty() )
  {
    bool found = false;
    for( Id const x : named )
    {
      std::string const number = std::to_string( x );
      for( std::size_t p = why.find( number ); p != std::string::npos && !found; p = why.find( number, p + 1 ) )
      {
        bool const left = p == 0 || ( !std::isdigit( static_cast< unsigned char >( why[ p - 1 ] ) ) && why[ p - 1 ] != '-' );
        bool const right = p + number.size() >= why.size() || !std::isdigit( static_cast< unsigned char >( why[ p + number.size() ] ) );
        found = left && right;
      }
    }
    SIM_CHECK( found, "wrong-message", "%s with%s: the message does not name the argument: %.300s", what, args.c_str(), why.c_str() );
  }
}

/// Nothing may access the slots between or after the values while this lives.
struct Closed
{
  std::vector< std::pair< void const *, std::size_t > > parts;
  Closed() = default;
  Closed( Closed const & ) = delete;
  void add( void const * const p, std::size_t const n )
  {
    sim::NoTrack quiet;
    if( p == nullptr || n == 0 ) return;
    sim::forbid( p, n );
    parts.push_back( { p, n } );
  }
  ~Closed() { sim::NoTrack quiet; for( auto const & p : parts ) sim::allow( p.first, p.second ); }
};

int pick( std::size_t const n ) { return int( sim::draw( std::uint32_t( n ) ) ); }

// ------------------------------------------------------------------ arrays of one to four dimensions
template< typename V > auto const & ref( V const & v, I const ( &i )[ 1 ] ) { return v[ i[ 0 ] ]; }
template< typename V > auto const & ref( V const & v, I const ( &i )[ 2 ] ) { return v[ i[ 0 ] ][ i[ 1 ] ]; }
template< typename V > auto const & ref( V const & v, I const ( &i )[ 3 ] ) { return v[ i[ 0 ] ][ i[ 1 ] ][ i[ 2 ] ]; }
template< typename V > auto const & ref( V const & v, I const ( &i )[ 4 ] ) { return v[ i[ 0 ] ][ i[ 1 ] ][ i[ 2 ] ][ i[ 3 ] ]; }
template< typename V, typename IDX > auto const & call( V const & v, I const ( &i )[ 1 ], IDX ) { return v( IDX( i[ 0 ] ) ); }
template< typename V, typename IDX > auto const & call( V const & v, I const ( &i )[ 2 ], IDX ) { return v( IDX( i[ 0 ] ), i[ 1 ] ); }
template< typename V, typename IDX > auto const & call( V const & v, I const ( &i )[ 3 ], IDX ) { return v( i[ 0 ], IDX( i[ 1 ] ), i[ 2 ] ); }
template< typename V, typename IDX > auto const & call( V const & v, I const ( &i )[ 4 ], IDX ) { return v( i[ 0 ], i[ 1 ], i[ 2 ], IDX( i[ 3 ] ) ); }
template< typename V > auto linear( V const & v, I const ( &i )[ 1 ] ) { return v.linearIndex( i[ 0 ] ); }
template< typename V > auto linear( V const & v, I const ( &i )[ 2 ] ) { return v.linearIndex( i[ 0 ], i[ 1 ] ); }
template< typename V > auto linear( V const & v, I const ( &i )[ 3 ] ) { return v.linearIndex( i[ 0 ], i[ 1 ], i[ 2 ] ); }
template< typename V > auto linear( V const & v, I const ( &i )[ 4 ] ) { return v.linearIndex( i[ 0 ], i[ 1 ], i[ 2 ], i[ 3 ] ); }

template< typename A, typename IT > void resizeAll( A & a, IT const ( &d )[ 1 ] ) { a.resize( d[ 0 ] ); }
template< typename A, typename IT > void resizeAll( A & a, IT const ( &d )[ 2 ] ) { a.resize( d[ 0 ], d[ 1 ] ); }
template< typename A, typename IT > void resizeAll( A & a, IT const ( &d )[ 3 ] ) { a.resize( d[ 0 ], d[ 1 ], d[ 2 ] ); }
template< typename A, typename IT > void resizeAll( A & a, IT const ( &d )[ 4 ] ) { a.resize( d[ 0 ], d[ 1 ], d[ 2 ], d[ 3 ] ); }

template< typename T, int NDIM, typename PERM, typename IT >
struct NdBox
{
  using E = Elem< T >;
  using A = Array< T, NDIM, PERM, IT, MallocBuffer >;
  A a;
  I dims[ NDIM ];
  std::vector< Id > m;       // in logical order

  I at( I const ( &i )[ NDIM ] ) const { I k = 0; for( int d = 0; d < NDIM; ++d ) k = k * dims[ d ] + i[ d ]; return k; }

  void build()
  {
    IT s[ NDIM ];
    I n = 1;
    for( int d = 0; d < NDIM; ++d ) { dims[ d ] = sim::chance( 1, 8 ) ? 0 : sim::range( 1, 4 ); s[ d ] = IT( dims[ d ] ); n *= dims[ d ]; }
    if( sim::chance( 1, 3 ) ) a.reserve( IT( n + sim::range( 1, 6 ) ) );
    resizeAll( a, s );
    m.assign( std::size_t( n ), 0 );
    I i[ NDIM ];
    for( I k = 0; k < n; ++k )
    {
      I r = k;
      for( int d = NDIM - 1; d >= 0; --d ) { i[ d ] = r % dims[ d ]; r /= dims[ d ]; }
      m[ std::size_t( k ) ] = 100 + k;
      const_cast< T & >( call( a, i, IT() ) ) = E::make( 100 + k );
    }
    sim::log( "%d dimensions of %s: %lld values, capacity %lld", NDIM, E::name(), (long long) n, (long long) a.capacity() );
  }

  void close( Closed & c ) { c.add( a.data() + a.size(), std::size_t( a.capacity() - a.size() ) * sizeof( T ) ); }

  template< typename V >
  void access( V const & v, char const * const who )
  {
    I i[ NDIM ];
    std::vector< Id > bad;
    bool const wantBad = sim::chance( 2, 3 );
    for( int d = 0; d < NDIM; ++d )
    {
      bool const b = dims[ d ] == 0 || ( wantBad && sim::chance( 1, NDIM ) );
      i[ d ] = b ? I( outside< IT >( std::size_t( dims[ d ] ) ) ) : I( pick( std::size_t( dims[ d ] ) ) );
      if( b ) bad.push_back( Id( i[ d ] ) );
    }
    int const how = int( sim::draw( 4 ) );
    char const * const name = how == 0 ? "[]" : how == 3 ? "linearIndex" : "()";
    std::string line;
    for( I const x : i ) line += " " + std::to_string( x );
    sim::log( "%s%s%s", who, name, line.c_str() );
    auto const f = [&]
    {
      if( how == 0 ) (void) E::id( ref( v, i ) );
      else if( how == 1 ) (void) E::id( call( v, i, IT() ) );
      else if( how == 2 ) (void) E::id( call( v, i, long() ) );
      else (void) linear( v, i );
    };
    if( bad.empty() )
    {
      f();
      if( how != 3 )
      {
        Id const x = E::id( how == 0 ? ref( v, i ) : call( v, i, IT() ) );
        SIM_CHECK( x == m[ std::size_t( at( i ) ) ], "wrong-value", "%s%s%s gives %lld instead of %lld", who, name, line.c_str(), (long long) x, (long long) m[ std::size_t( at( i ) ) ] );
      }
      sim::probe( "valid-access" );
      return;
    }
    Closed c;
    close( c );
    invalid( name, bad, f );
  }

  void dimensions()
  {
    int const d = sim::chance( 1, 3 ) ? pick( NDIM ) : int( outside< int >( NDIM ) );
    int const how = int( sim::draw( 3 ) );
    sim::log( "size of dimension %d (%d)", d, how );
    ArraySlice< T const, NDIM, A::USD, IT > const slice = a.toSliceConst();
    auto const f = [&] { I volatile x = how == 0 ? a.size( d ) : how == 1 ? slice.size( d ) : slice.stride( d ); (void) x; };
    if( d >= 0 && d < NDIM ) f();
    else invalid( how == 2 ? "stride" : "size", { d }, f );
  }

  void resizeBadly()
  {
    IT s[ NDIM ];
    std::vector< Id > bad;
    for( int d = 0; d < NDIM; ++d ) s[ d ] = IT( dims[ d ] );
    int const d = pick( NDIM );
    s[ d ] = IT( -sim::range( 1, 5 ) );
    sim::log( "resize of dimension %d to %lld", d, (long long) s[ d ] );
    // the length of a dimension is lost by this, the values are not
    switch( sim::draw( 8 ) )
    {
      case 3:
      {
        IT const n = s[ NDIM - 1 ] = IT( -sim::range( 1, 5 ) );
        invalid( "resizeDimension", { Id( n ) }, [&] { a.template resizeDimension< NDIM - 1 >( n ); } );
        break;
      }
      case 4: quickResize< T >( s, Id( s[ d ] ) ); break;
      case 5:
      { // not a number of the index type
        if( sizeof( IT ) > 4 ) { invalid( "resize", { Id( s[ d ] ) }, [&] { resizeAll( a, s ); } ); break; }
        I b[ NDIM ];
        for( int e = 0; e < NDIM; ++e ) b[ e ] = dims[ e ];
        b[ d ] = ( I( 1 ) << 32 ) * sim::range( 1, 3 ) + ( sim::chance( 1, 2 ) ? dims[ d ] : 0 );
        if( sim::chance( 1, 3 ) ) b[ d ] = -b[ d ];
        sim::probe( "not-an-index" );
        if( sim::chance( 1, 2 ) ) invalid( "resize", { b[ d ] }, [&] { resizeAll( a, b ); } );
        else invalid( "resize by pointer", { b[ d ] }, [&] { a.resize( NDIM, b ); } );
        break;
      }
      case 6:
      {
        int const n = sim::chance( 1, 2 ) ? NDIM + sim::range( 1, 2 ) : NDIM - 1;
        IT const all[ NDIM + 2 ] = {};
        invalid( "resize by pointer with a wrong number of dimensions", { n }, [&] { a.resize( n, all ); } );
        break;
      }
      case 0: invalid( "resize", { Id( s[ d ] ) }, [&] { resizeAll( a, s ); } ); break;
      case 1: invalid( "resize by pointer", { Id( s[ d ] ) }, [&] { a.resize( NDIM, s ); } ); break;
      default:
      {
        IT const n = IT( -sim::range( 1, 5 ) );
        invalid( "resize of the default dimension", { Id( n ) }, [&] { a.resize( n ); } );
        break;
      }
    }
    raw();
    m.clear();
  }

  template< typename U > std::enable_if_t< std::is_trivially_destructible< U >::value > quickResize( IT const ( &s )[ NDIM ], Id const bad )
  { invalid( "resizeWithoutInitializationOrDestruction", { bad }, [&] { quickly( s, std::integral_constant< int, NDIM > {} ); } ); }
  template< typename U > std::enable_if_t< !std::is_trivially_destructible< U >::value > quickResize( IT const ( &s )[ NDIM ], Id const bad )
  { invalid( "resize", { bad }, [&] { resizeAll( a, s ); } ); }
  void quickly( IT const ( &s )[ NDIM ], std::integral_constant< int, 1 > ) { a.resizeWithoutInitializationOrDestruction( s[ 0 ] ); }
  void quickly( IT const ( &s )[ NDIM ], std::integral_constant< int, 2 > ) { a.resizeWithoutInitializationOrDestruction( s[ 0 ], s[ 1 ] ); }
  void quickly( IT const ( &s )[ NDIM ], std::integral_constant< int, 3 > ) { a.resizeWithoutInitializationOrDestruction( s[ 0 ], s[ 1 ], s[ 2 ] ); }
  void quickly( IT const ( &s )[ NDIM ], std::integral_constant< int, 4 > ) { a.resizeWithoutInitializationOrDestruction( s[ 0 ], s[ 1 ], s[ 2 ], s[ 3 ] ); }

  /// The values of a slice as plain memory: only where they follow each other.
  template< typename U, int N, int USD, std::enable_if_t< ( USD >= 0 ), int > = 0 >
  void asPointers( ArraySlice< U, N, USD, IT > const & s )
  {
    std::vector< T const * > where;
    forValuesInSlice( s, [&]( T const & v ) { where.push_back( &v ); } );
    std::sort( where.begin(), where.end() );
    bool dense = true;
    for( std::size_t k = 1; k < where.size(); ++k ) dense = dense && where[ k ] == where[ k - 1 ] + 1;
    int const how = int( sim::draw( 3 ) );
    sim::log( "%zu values%s as pointers", where.size(), dense ? "" : " that are apart" );
    auto const f = [&]() -> T const * { return how == 0 ? s.dataIfContiguous() : how == 1 ? s.begin() : s.end(); };
    if( dense && s.isContiguous() )
    {
      T const * const p = f();
      if( !where.empty() ) SIM_CHECK( p == where[ 0 ] + ( how == 2 ? I( where.size() ) : 0 ), "wrong-address", "the pointer to %zu values leads elsewhere", where.size() );
      sim::probe( "slice-as-pointers" );
    }
    else if( !dense )
    {
      SIM_CHECK( !s.isContiguous(), "wrong-contiguity", "values that are apart are said to be contiguous" );
      sim::probe( "slice-apart" );
      invalid( "pointer to values that are apart", {}, f );
      return;
    }
    if( !where.empty() && sim::chance( 1, 2 ) ) deeper( s, std::integral_constant< bool, ( N > 1 ) > {} );
  }
  template< typename U, int N, int USD, std::enable_if_t< ( USD < 0 ), int > = 0 >
  void asPointers( ArraySlice< U, N, USD, IT > const & s )
  {
    SIM_CHECK( !s.isContiguous(), "wrong-contiguity", "values that are apart are said to be contiguous" );
  }
  template< typename U > void asPointers( U const & ) {}
  template< typename S > void deeper( S const & s, std::true_type ) { asPointers( s[ IT( pick( std::size_t( s.size( 0 ) ) ) ) ] ); }
  template< typename S > void deeper( S const &, std::false_type ) {}

  /// Two arrays that do not fit together.
  void mismatched()
  {
    Closed c;
    close( c );
    switch( sim::draw( 3 ) )
    {
      case 0:
      {
        IT s[ NDIM ];
        for( int d = 0; d < NDIM; ++d ) s[ d ] = IT( dims[ d ] );
        int const d = pick( NDIM );
        s[ d ] = s[ d ] > 0 && sim::chance( 1, 2 ) ? IT( s[ d ] - 1 ) : IT( s[ d ] + sim::range( 1, 3 ) );
        A other;
        resizeAll( other, s );
        sim::log( "setValues from an array with %lld instead of %lld values in dimension %d", (long long) s[ d ], (long long) dims[ d ], d );
        invalid( "setValues", {}, [&] { a.template setValues< RAJA::loop_exec >( other.toViewConst() ); } );
        break;
      }
      case 1: joined< T >(); break;
      default: summed( std::integral_constant< bool, std::is_arithmetic< T >::value && ( NDIM > 1 ) > {} );
    }
  }
  /// A view of pairs of values.
  template< typename U > std::enable_if_t< std::is_trivially_copyable< U >::value > joined()
  {
    struct Pair { U a, b; };
    I const along = dims[ A::USD ];
    auto const view = a.toView();
    auto const f = [&] { ArrayView< Pair, NDIM, A::USD, IT, MallocBuffer > const p( view ); SIM_CHECK( I( p.size( A::USD ) ) == along / 2, "wrong-size", "a view of pairs has %lld of %lld values", (long long) p.size( A::USD ), (long long) along ); };
    sim::log( "%lld values as pairs", (long long) along );
    if( along % 2 == 0 ) f();
    else { sim::probe( "odd-pairs" ); invalid( "a view of pairs of an odd number of values", {}, f ); }
  }
  template< typename U > std::enable_if_t< !std::is_trivially_copyable< U >::value > joined() {}
  void summed( std::false_type ) {}
  void summed( std::true_type )
  {
    Array< T, NDIM - 1, std::conditional_t< NDIM == 2, RAJA::PERM_I, std::conditional_t< NDIM == 3, RAJA::PERM_JI, RAJA::PERM_IKJ > >, IT, MallocBuffer > y;
    IT s[ NDIM ];
    for( int d = 1; d < NDIM; ++d ) s[ d - 1 ] = IT( dims[ d ] );
    int const d = pick( NDIM - 1 );
    IT const was = s[ d ];
    bool const bad = sim::chance( 2, 3 );
    if( bad ) s[ d ] = s[ d ] > 0 && sim::chance( 1, 2 ) ? IT( s[ d ] - 1 ) : IT( s[ d ] + 1 );
    y.resize( NDIM - 1, s );
    sim::log( "sum over the first dimension into %lld, %lld values in dimension %d", (long long) s[ d ], (long long) was, d );
    auto const f = [&] { sumOverFirstDimension( a.toSliceConst(), y.toSlice() ); };
    if( !bad ) f();
    else { sim::probe( "sum-mismatch" ); invalid( "sumOverFirstDimension", { Id( s[ d ] ), Id( was ) }, f ); }
  }

  void defaultDimension()
  {
    int const d = int( outside< int >( NDIM ) );
    sim::log( "default resize dimension %d", d );
    invalid( "setSingleParameterResizeIndex", { d }, [&] { a.setSingleParameterResizeIndex( d ); } );
  }

  void raw()
  {
    std::vector< Id > x;
    for( I k = 0; k < I( m.size() ); ++k ) x.push_back( E::id( a.data()[ k ] ) );
    std::vector< Id > y = m;
    std::sort( x.begin(), x.end() ), std::sort( y.begin(), y.end() );
    SIM_CHECK( x == y, "value-damaged", "the values are %s instead of %s", scn::show( x ).c_str(), scn::show( y ).c_str() );
  }

  void oneDimension( std::integral_constant< int, 1 > )
  {
    I const n = I( m.size() );
    auto const & id = m;
    (void) id;
    bool const bad = sim::chance( 1, 2 );
    Closed c;
    std::vector< T > some;
    for( int k = sim::range( 0, 3 ); k > 0; --k ) some.push_back( E::make( 700 + k ) );
    switch( sim::draw( 4 ) )
    {
      case 0:
      {
        I const pos = bad ? I( outside< IT >( std::size_t( n + 1 ) ) ) : I( sim::range( 0, int( n ) ) );
        sim::log( "emplace at %lld", (long long) pos );
        if( bad ) { close( c ); invalid( "emplace", { Id( pos ) }, [&] { a.emplace( IT( pos ), E::make( 5 ) ); } ); return; }
        a.emplace( IT( pos ), E::make( 5 ) );
        m.insert( m.begin() + pos, 5 );
        break;
      }
      case 1:
      {
        I const pos = bad ? I( outside< IT >( std::size_t( n + 1 ) ) ) : I( sim::range( 0, int( n ) ) );
        sim::log( "insert %zu at %lld", some.size(), (long long) pos );
        if( bad ) { close( c ); invalid( "insert", { Id( pos ) }, [&] { a.insert( IT( pos ), some.begin(), some.end() ); } ); return; }
        a.insert( IT( pos ), some.begin(), some.end() );
        for( std::size_t k = 0; k < some.size(); ++k ) m.insert( m.begin() + pos + I( k ), E::id( some[ k ] ) );
        break;
      }
      case 2:
      {
        bool const b = bad || n == 0;
        I const pos = b ? I( outside< IT >( std::size_t( n ) ) ) : I( pick( std::size_t( n ) ) );
        sim::log( "erase at %lld", (long long) pos );
        if( b ) { close( c ); invalid( "erase", { Id( pos ) }, [&] { a.erase( IT( pos ) ); } ); return; }
        a.erase( IT( pos ) );
        m.erase( m.begin() + pos );
        break;
      }
      default:
        if( n == 0 )
        {
          if( !asserted ) break;
          sim::log( "pop_back of nothing" );
          close( c );
          invalid( "pop_back", {}, [&] { a.pop_back(); } );
          return;
        }
        a.pop_back();
        m.pop_back();
        break;
    }
    dims[ 0 ] = I( m.size() );
  }
  template< int K > void oneDimension( std::integral_constant< int, K > ) { dimensions(); }

  void step()
  {
    sim::Span span;
    switch( sim::draw( 10 ) )
    {
      case 0: case 1: access( a, "array" ); break;
      case 2: access( a.toView(), "view" ); break;
      case 3: access( a.toViewConst(), "constant view" ); break;
      case 4: { auto const s = a.toSlice(); access( s, "slice" ); break; }
      case 5: { auto const s = a.toSliceConst(); access( s, "constant slice" ); break; }
      case 6: if( sim::chance( 1, 2 ) ) dimensions(); else if( sim::chance( 1, 2 ) ) mismatched(); else if( sim::chance( 1, 2 ) ) asPointers( a.toSlice() ); else asPointers( a.toSliceConst() ); break;
      case 7: defaultDimension(); break;
      default: oneDimension( std::integral_constant< int, NDIM >() ); break;
    }
  }
  bool last() { if( !sim::chance( 1, 3 ) ) return false; resizeBadly(); return true; }
  void verify()
  {
    SIM_CHECK( I( m.size() ) == I( a.size() ), "wrong-size", "the array has %lld values instead of %zu", (long long) a.size(), m.size() );
    I i[ NDIM ];
    for( I k = 0; k < I( m.size() ); ++k )
    {
      I r = k;
      for( int d = NDIM - 1; d >= 0; --d ) { i[ d ] = r % dims[ d ]; r /= dims[ d ]; }
      Id const x = E::id( call( a, i, IT() ) );
      SIM_CHECK( x == m[ std::size_t( k ) ], "value-damaged", "value %lld is %lld instead of %lld", (long long) k, (long long) x, (long long) m[ std::size_t( k ) ] );
    }
  }
};

// ------------------------------------------------------------------ sorted arrays
template< typename T, typename IT >
struct SortedBox
{
  using E = Elem< T >;
  SortedArray< T, IT, MallocBuffer > a;
  std::set< Id > m;

  void build()
  {
    if( sim::chance( 1, 3 ) ) a.reserve( IT( sim::range( 1, 9 ) ) );
    for( int n = sim::range( 0, 7 ); n > 0; --n ) { Id const x = sim::range( 0, 40 ); m.insert( x ); a.insert( E::make( x ) ); }
    sim::log( "sorted array of %s: %zu values", E::name(), m.size() );
  }
  template< typename V > void access( V const & v, char const * const who )
  {
    bool const bad = m.empty() || sim::chance( 1, 2 );
    IT const i = bad ? outside< IT >( m.size() ) : IT( pick( m.size() ) );
    bool const paren = sim::chance( 1, 2 );
    sim::log( "%s%s %lld", who, paren ? "()" : "[]", (long long) i );
    auto const f = [&] { (void) E::id( paren ? v( i ) : v[ i ] ); };
    if( bad ) { invalid( paren ? "()" : "[]", { Id( i ) }, f ); return; }
    f();
    auto it = m.begin();
    std::advance( it, i );
    SIM_CHECK( E::id( v[ i ] ) == *it, "wrong-value", "%s value %lld is %lld instead of %lld", who, (long long) i, (long long) E::id( v[ i ] ), (long long) *it );
  }
  void step()
  {
    sim::Span span;
    switch( sim::draw( 6 ) )
    {
      case 0: access( a, "array" ); break;
      case 1: access( a.toView(), "view" ); break;
      case 2: access( a.toViewConst(), "constant view" ); break;
      case 3: { auto const s = a.toSlice(); access( s, "slice" ); break; }
      default:
      {
        std::vector< Id > ids;
        for( int n = sim::range( 0, 5 ); n > 0; --n ) ids.push_back( sim::range( 0, 40 ) );
        std::sort( ids.begin(), ids.end() );
        ids.erase( std::unique( ids.begin(), ids.end() ), ids.end() );
        bool const bad = asserted && ids.size() > 1 && sim::chance( 1, 2 );
        if( bad )
        {
          int const k = pick( ids.size() - 1 );
          if( sim::chance( 1, 2 ) ) ids[ std::size_t( k + 1 ) ] = ids[ std::size_t( k ) ];
          else std::swap( ids[ std::size_t( k ) ], ids[ std::size_t( k + 1 ) ] );
        }
        std::vector< T > values;
        for( Id const x : ids ) values.push_back( E::make( x ) );
        bool const insert = sim::chance( 1, 2 );
        sim::log( "%s %s", insert ? "insert" : "remove", scn::show( ids ).c_str() );
        auto const f = [&] { if( insert ) a.insert( values.begin(), values.end() ); else a.remove( values.begin(), values.end() ); };
        if( bad ) { sim::probe( "unordered" ); invalid( insert ? "insert of unordered values" : "remove of unordered values", {}, f ); break; }
        f();
        for( Id const x : ids ) { if( insert ) m.insert( x ); else m.erase( x ); }
        break;
      }
    }
  }
  bool last() { return false; }
  void verify()
  {
    std::vector< Id > x;
    for( IT i = 0; i < a.size(); ++i ) x.push_back( E::id( a.data()[ i ] ) );
    SIM_CHECK( x == std::vector< Id >( m.begin(), m.end() ), "value-damaged", "the values are %s instead of %s", scn::show( x ).c_str(), scn::show( std::vector< Id >( m.begin(), m.end() ) ).c_str() );
  }
};

// ------------------------------------------------------------------ what all the ragged containers share
template< typename DERIVED, typename T, typename IT >
struct RowsBox
{
  using E = Elem< T >;
  std::vector< std::vector< Id > > m;
  I gone = 0;

  DERIVED & self() { return static_cast< DERIVED & >( *this ); }

  /// Everything in the values buffer that is not a value.
  void close( Closed & c )
  {
    auto const a = self().a.toViewConst();
    T const * const values = self().values();
    IT const * const offsets = a.getOffsets();
    IT const * const sizes = a.getSizes();
    if( offsets == nullptr || values == nullptr ) return;
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      c.add( values + offsets[ i ] + sizes[ i ], std::size_t( offsets[ i + 1 ] - offsets[ i ] - sizes[ i ] ) * sizeof( T ) );
      self().closeMore( c, I( offsets[ i ] + sizes[ i ] ), I( offsets[ i + 1 ] - offsets[ i ] - sizes[ i ] ) );
    }
    std::size_t const bytes = sim::blockSize( values );
    std::size_t const used = std::size_t( offsets[ m.size() ] ) * sizeof( T );
    if( bytes > used ) c.add( values + offsets[ m.size() ], bytes - used );
  }

  IT row( bool & bad, I const extra=0 )
  {
    bad = bad || I( m.size() ) + extra == 0;
    return bad ? outside< IT >( m.size() + std::size_t( extra ) ) : IT( pick( m.size() + std::size_t( extra ) ) );
  }

  /// Access to row i, position j and the sizes through the container or one of its views.
  template< typename V > void access( V const & v, char const * const who )
  {
    bool bad = sim::chance( 1, 3 );
    IT const i = row( bad );
    int const how = int( sim::draw( 5 ) );
    if( bad )
    {
      sim::log( "%s row %lld (%d)", who, (long long) i, how );
      Closed c;
      close( c );
      invalid( how == 0 ? "[]" : how == 1 ? "()" : how == 2 ? "[][]" : how == 3 ? "size of a row" : "capacity of a row", { Id( i ) }, [&]
      {
        if( how == 0 ) (void) v[ i ];
        else if( how == 1 ) (void) E::id( v( i, 0 ) );
        else if( how == 2 ) (void) E::id( v[ i ][ 0 ] );
        else if( how == 3 ) (void) self().sizeOf( v, i );
        else (void) self().capacityOf( v, i );
      } );
      return;
    }
    auto const & r = m[ std::size_t( i ) ];
    if( how > 2 )
    {
      SIM_CHECK( I( self().sizeOf( v, i ) ) == I( r.size() ), "wrong-size", "%s: row %lld has %lld values instead of %zu", who, (long long) i, (long long) self().sizeOf( v, i ), r.size() );
      SIM_CHECK( self().capacityOf( v, i ) >= self().sizeOf( v, i ), "wrong-size", "%s: row %lld has a capacity below its size", who, (long long) i );
      return;
    }
    bad = r.empty() || sim::chance( 1, 2 );
    IT const j = bad ? outside< IT >( r.size() ) : IT( pick( r.size() ) );
    sim::log( "%s row %lld value %lld (%d)", who, (long long) i, (long long) j, how );
    auto const f = [&] { return E::id( how == 1 ? v( i, j ) : v[ i ][ j ] ); };
    if( bad )
    {
      Closed c;
      close( c );
      invalid( "access", { Id( j ) }, [&] { (void) f(); } );
      return;
    }
    Id const x = f();
    SIM_CHECK( x == r[ std::size_t( j ) ], "wrong-value", "%s: value %lld of row %lld is %lld instead of %lld", who, (long long) j, (long long) i, (long long) x, (long long) r[ std::size_t( j ) ] );
  }

  void verify()
  {
    auto const & a = self().a;
    SIM_CHECK( self().rows() == I( m.size() ), "wrong-size", "the container has %lld rows instead of %zu", (long long) self().rows(), m.size() );
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      std::vector< Id > x;
      for( IT j = 0; j < self().sizeOf( a, IT( i ) ); ++j ) x.push_back( E::id( a( IT( i ), j ) ) );
      SIM_CHECK( x == m[ i ], "value-damaged", "row %zu holds %s instead of %s", i, scn::show( x ).c_str(), scn::show( m[ i ] ).c_str() );
    }
  }
};

// ------------------------------------------------------------------ arrays of arrays
template< typename T, typename IT >
struct RaggedBox : RowsBox< RaggedBox< T, IT >, T, IT >
{
  using Base = RowsBox< RaggedBox< T, IT >, T, IT >;
  using E = Elem< T >;
  using Base::m;
  using Base::close;
  using Base::row;
  using Base::access;
  ArrayOfArrays< T, IT, MallocBuffer > a;
  Id next = 1;

  T const * values() const { return a.toViewConst().getValues(); }
  I rows() const { return a.size(); }
  void closeMore( Closed &, I, I ) {}
  template< typename V > static IT sizeOf( V const & v, IT const i ) { return v.sizeOfArray( i ); }
  template< typename V > static IT capacityOf( V const & v, IT const i ) { return v.capacityOfArray( i ); }

  void build()
  {
    MayRelocate relocate;
    for( int n = sim::range( 0, 4 ); n > 0; --n )
    {
      std::vector< T > some;
      m.push_back( {} );
      for( int k = sim::range( 0, 4 ); k > 0; --k ) { some.push_back( E::make( next ) ); m.back().push_back( next++ ); }
      a.appendArray( some.begin(), some.end() );
      if( sim::chance( 2, 3 ) ) a.setCapacityOfArray( a.size() - 1, IT( m.back().size() + std::size_t( sim::range( 0, 3 ) ) ) );
    }
    sim::log( "ragged array of %s: %zu rows", E::name(), m.size() );
  }

  std::vector< T > some( std::vector< Id > & ids )
  {
    std::vector< T > v;
    for( int k = sim::range( 0, 5 ); k > 0; --k ) { v.push_back( E::make( next ) ); ids.push_back( next++ ); }
    return v;
  }

  /// Operations that change the values of a row, through the container (which grows) or a view (which cannot).
  template< typename V > void change( V & v, bool const fixed )
  {
    MayRelocate relocate;
    bool badRow = sim::chance( 1, 4 );
    IT const i = row( badRow );
    std::vector< Id > ids;
    Closed c;
    char const * const who = fixed ? "view" : "container";
    int const what = int( sim::draw( 5 ) );
    IT const size = badRow ? 0 : a.sizeOfArray( i );
    IT const room = badRow ? 0 : a.capacityOfArray( i ) - size;
    switch( what )
    {
      case 0:
      {
        T value( E::make( next ) );
        bool const bad = badRow || ( fixed && room < 1 );
        sim::log( "%s emplaceBack to row %lld", who, (long long) i );
        if( bad )
        {
          if( !badRow ) sim::probe( "over-capacity" );
          close( c );
          invalid( "emplaceBack", badRow ? std::vector< Id >{ Id( i ) } : std::vector< Id >{ Id( i ) }, [&] { v.emplaceBack( i, value ); } );
          return;
        }
        v.emplaceBack( i, value );
        m[ std::size_t( i ) ].push_back( next++ );
        break;
      }
      case 1:
      {
        std::vector< T > const s = some( ids );
        std::list< T > const l( s.begin(), s.end() );
        bool const list = sim::chance( 1, 2 );
        bool const bad = badRow || ( fixed && room < IT( s.size() ) );
        sim::log( "%s appendToArray %zu to row %lld", who, s.size(), (long long) i );
        auto const f = [&] { if( list ) v.appendToArray( i, l.begin(), l.end() ); else v.appendToArray( i, s.begin(), s.end() ); };
        if( bad )
        {
          if( !badRow ) sim::probe( "over-capacity" );
          close( c );
          invalid( "appendToArray", { Id( i ) }, f );
          return;
        }
        f();
        for( Id const x : ids ) m[ std::size_t( i ) ].push_back( x );
        break;
      }
      case 2:
      {
        bool const badPos = sim::chance( 1, 3 );
        IT const j = badPos ? outside< IT >( std::size_t( size ) + 1 ) : IT( sim::range( 0, int( size ) ) );
        bool const full = fixed && room < 1;
        sim::log( "%s emplace to row %lld at %lld", who, (long long) i, (long long) j );
        T value( E::make( next ) );
        if( badRow || badPos || full )
        {
          if( fixed ) close( c );
          std::vector< Id > named;
          if( badRow || full ) named.push_back( i );
          if( badPos ) named.push_back( j );
          invalid( "emplace", named, [&] { v.emplace( i, j, value ); } );
          return;
        }
        v.emplace( i, j, value );
        m[ std::size_t( i ) ].insert( m[ std::size_t( i ) ].begin() + j, next++ );
        break;
      }
      case 3:
      {
        bool const badPos = sim::chance( 1, 3 );
        IT const j = badPos ? outside< IT >( std::size_t( size ) + 1 ) : IT( sim::range( 0, int( size ) ) );
        std::vector< T > const s = some( ids );
        bool const full = fixed && room < IT( s.size() );
        sim::log( "%s insertIntoArray %zu to row %lld at %lld", who, s.size(), (long long) i, (long long) j );
        if( badRow || badPos || full )
        {
          if( fixed ) close( c );
          std::vector< Id > named;
          if( badRow || full ) named.push_back( i );
          if( badPos ) named.push_back( j );
          invalid( "insertIntoArray", named, [&] { v.insertIntoArray( i, j, s.begin(), s.end() ); } );
          return;
        }
        v.insertIntoArray( i, j, s.begin(), s.end() );
        m[ std::size_t( i ) ].insert( m[ std::size_t( i ) ].begin() + j, ids.begin(), ids.end() );
        break;
      }
      default:
      {
        bool const badPos = size == 0 || sim::chance( 1, 3 );
        IT const j = badPos ? outside< IT >( std::size_t( size ) ) : IT( pick( std::size_t( size ) ) );
        bool const badCount = !badRow && !badPos && sim::chance( 1, 2 );
        IT const n = badCount ? ( asserted && sim::chance( 1, 3 ) ? IT( -sim::range( 1, 3 ) ) : IT( size - j + sim::range( 1, 3 ) ) ) : badPos ? IT( 1 ) : IT( sim::range( 1, int( size - j ) ) );
        sim::log( "%s eraseFromArray %lld of row %lld at %lld", who, (long long) n, (long long) i, (long long) j );
        if( badRow || badPos || badCount )
        {
          close( c );
          std::vector< Id > named;
          if( badRow ) named.push_back( i );
          if( badPos ) named.push_back( j );
          invalid( "eraseFromArray", named, [&] { v.eraseFromArray( i, j, n ); } );
          return;
        }
        v.eraseFromArray( i, j, n );
        m[ std::size_t( i ) ].erase( m[ std::size_t( i ) ].begin() + j, m[ std::size_t( i ) ].begin() + j + n );
        break;
      }
    }
  }

  void rowsOfTheOwner()
  {
    MayRelocate relocate;
    std::vector< Id > ids;
    Closed c;
    bool bad = sim::chance( 1, 2 );
    switch( sim::draw( 5 ) )
    {
      case 0:
      {
        IT const i = row( bad, 1 );
        std::vector< T > const s = some( ids );
        sim::log( "insertArray at %lld", (long long) i );
        if( bad ) { close( c ); invalid( "insertArray", { Id( i ) }, [&] { a.insertArray( i, s.begin(), s.end() ); } ); return; }
        a.insertArray( i, s.begin(), s.end() );
        m.insert( m.begin() + i, ids );
        break;
      }
      case 1:
      {
        IT const i = row( bad );
        sim::log( "eraseArray %lld", (long long) i );
        if( bad ) { close( c ); invalid( "eraseArray", { Id( i ) }, [&] { a.eraseArray( i ); } ); return; }
        a.eraseArray( i );
        m.erase( m.begin() + i );
        break;
      }
      case 2:
      {
        IT const i = row( bad );
        bool const badSize = asserted && !bad && sim::chance( 1, 3 );
        IT const n = badSize ? IT( -sim::range( 1, 4 ) ) : IT( sim::range( 0, 6 ) );
        sim::log( "resizeArray %lld to %lld", (long long) i, (long long) n );
        if( bad || badSize ) { close( c ); invalid( "resizeArray", bad ? std::vector< Id >{ Id( i ) } : std::vector< Id >{}, [&] { a.resizeArray( i, n ); } ); return; }
        a.resizeArray( i, n );
        m[ std::size_t( i ) ].resize( std::size_t( n ), 0 );
        break;
      }
      case 3:
      {
        IT const i = row( bad );
        bool const badSize = asserted && !bad && sim::chance( 1, 3 );
        IT const n = badSize ? IT( -sim::range( 1, 4 ) ) : IT( sim::range( 0, 6 ) );
        sim::log( "setCapacityOfArray %lld to %lld", (long long) i, (long long) n );
        if( bad || badSize ) { close( c ); invalid( "setCapacityOfArray", bad ? std::vector< Id >{ Id( i ) } : std::vector< Id >{}, [&] { a.setCapacityOfArray( i, n ); } ); return; }
        a.setCapacityOfArray( i, n );
        if( I( m[ std::size_t( i ) ].size() ) > n ) m[ std::size_t( i ) ].resize( std::size_t( n ) );
        break;
      }
      default:
      {
        IT caps[ 4 ] = { 1, 0, 2, 3 };
        int const n = sim::range( 1, 4 ), k = pick( std::size_t( n ) );
        caps[ k ] = IT( -sim::range( 1, 4 ) );
        sim::log( "resizeFromCapacities with %lld", (long long) caps[ k ] );
        close( c );
        invalid( "resizeFromCapacities", { Id( caps[ k ] ) }, [&] { a.template resizeFromCapacities< RAJA::loop_exec >( IT( n ), caps ); } );
        break;
      }
    }
  }

  void step()
  {
    sim::Span span;
    switch( sim::draw( 9 ) )
    {
      case 0: access( a, "container" ); break;
      case 1: access( a.toView(), "view" ); break;
      case 2: access( a.toViewConstSizes(), "view of fixed sizes" ); break;
      case 3: access( a.toViewConst(), "constant view" ); break;
      case 4: case 5: { auto const v = a.toView(); change( v, true ); break; }
      case 6: change( a, false ); break;
      default: rowsOfTheOwner(); break;
    }
  }

  bool last()
  {
    if( !sim::chance( 1, 3 ) ) return false;
    // several threads append to the same row, one more than there is room for: all of them stop
    std::size_t i = 0;
    while( i < m.size() && a.capacityOfArray( IT( i ) ) - a.sizeOfArray( IT( i ) ) > 6 ) ++i;
    if( i >= m.size() ) return false;
    int const room = int( a.capacityOfArray( IT( i ) ) - a.sizeOfArray( IT( i ) ) );
    sim::log( "%d threads append to row %zu with room for %d", room + 1, i, room );
    sim::probe( "atomic-over-capacity" );
    auto const v = a.toView();
    // the slots of the other rows and the gaps stay closed, those of this row are open
    Closed c;
    T const * const values = v.getValues();
    auto const offsets = v.getOffsets();
    for( std::size_t r = 0; r < m.size(); ++r )
      if( r != i ) c.add( values + offsets[ r ], std::size_t( offsets[ r + 1 ] - offsets[ r ] ) * sizeof( T ) );
    int const lanes = std::min( room + 1, 6 );
    invalid( "emplaceBackAtomic", { Id( i ) }, [&]
    {
      sim::parallel( lanes, [&]( int const t )
      {
        for( int k = t; k < room + 1; k += lanes ) v.template emplaceBackAtomic< RAJA::builtin_atomic >( IT( i ), E::make( 900 + k ) );
      } );
    } );
    return true;
  }
};

// ------------------------------------------------------------------ arrays of sets
template< typename T, typename IT >
struct SetsBox : RowsBox< SetsBox< T, IT >, T, IT >
{
  using Base = RowsBox< SetsBox< T, IT >, T, IT >;
  using E = Elem< T >;
  using Base::m;
  using Base::close;
  using Base::row;
  using Base::access;
  ArrayOfSets< T, IT, MallocBuffer > a;

  T const * values() const { return a.toViewConst().getValues(); }
  I rows() const { return a.size(); }
  void closeMore( Closed &, I, I ) {}
  template< typename V > static IT sizeOf( V const & v, IT const i ) { return v.sizeOfSet( i ); }
  template< typename V > static IT capacityOf( V const & v, IT const i ) { return v.capacityOfSet( i ); }

  void build()
  {
    MayRelocate relocate;
    for( int n = sim::range( 0, 4 ); n > 0; --n )
    {
      a.appendSet( IT( sim::range( 0, 3 ) ) );
      std::set< Id > s;
      for( int k = sim::range( 0, 4 ); k > 0; --k ) { Id const x = sim::range( 0, 30 ); s.insert( x ); a.insertIntoSet( a.size() - 1, E::make( x ) ); }
      m.push_back( std::vector< Id >( s.begin(), s.end() ) );
      if( sim::chance( 1, 2 ) ) a.setCapacityOfSet( a.size() - 1, IT( s.size() + std::size_t( sim::range( 0, 1 ) ) ) );
    }
    sim::log( "array of sets of %s: %zu rows", E::name(), m.size() );
  }

  template< typename V > void change( V & v, bool const fixed )
  {
    MayRelocate relocate;
    bool bad = sim::chance( 1, 4 );
    IT const i = row( bad );
    bool const badRow = bad;
    std::set< Id > s;
    if( !badRow ) s.insert( m[ std::size_t( i ) ].begin(), m[ std::size_t( i ) ].end() );
    std::vector< Id > ids;
    bool const many = sim::chance( 1, 2 ), insert = sim::chance( 1, 2 );
    for( int n = many ? sim::range( 0, 4 ) : 1; n > 0; --n ) ids.push_back( sim::range( 0, 30 ) );
    std::sort( ids.begin(), ids.end() );
    ids.erase( std::unique( ids.begin(), ids.end() ), ids.end() );
    bool unordered = false;
    if( asserted && !badRow && ids.size() > 1 && sim::chance( 1, 3 ) )
    {
      unordered = true;
      int const k = pick( ids.size() - 1 );
      if( sim::chance( 1, 2 ) ) ids[ std::size_t( k + 1 ) ] = ids[ std::size_t( k ) ];
      else std::swap( ids[ std::size_t( k ) ], ids[ std::size_t( k + 1 ) ] );
      sim::probe( "unordered" );
    }
    std::vector< T > vals;
    for( Id const x : ids ) vals.push_back( E::make( x ) );
    std::set< Id > r = s;
    for( Id const x : ids ) { if( insert ) r.insert( x ); else r.erase( x ); }
    bool const full = fixed && insert && !badRow && I( r.size() ) > I( a.capacityOfSet( i ) );
    sim::log( "%s %s row %lld %s", fixed ? "view" : "container", insert ? "insert into" : "remove from", (long long) i, scn::show( ids ).c_str() );
    auto const f = [&]
    {
      if( many ) { if( insert ) v.insertIntoSet( i, vals.begin(), vals.end() ); else v.removeFromSet( i, vals.begin(), vals.end() ); }
      else { if( insert ) v.insertIntoSet( i, vals[ 0 ] ); else v.removeFromSet( i, vals[ 0 ] ); }
    };
    if( badRow || unordered || full )
    {
      if( full ) sim::probe( "over-capacity" );
      Closed c;
      close( c );
      invalid( insert ? "insertIntoSet" : "removeFromSet", badRow ? std::vector< Id >{ Id( i ) } : std::vector< Id >{}, f );
      return;
    }
    f();
    m[ std::size_t( i ) ].assign( r.begin(), r.end() );
  }

  void rowsOfTheOwner()
  {
    MayRelocate relocate;
    Closed c;
    bool bad = sim::chance( 1, 2 );
    switch( sim::draw( 6 ) )
    {
      case 0:
      {
        IT const i = row( bad, 1 );
        bool const badSize = asserted && !bad && sim::chance( 1, 3 );
        IT const n = badSize ? IT( -sim::range( 1, 4 ) ) : IT( sim::range( 0, 4 ) );
        sim::log( "insertSet at %lld", (long long) i );
        if( bad || badSize ) { close( c ); invalid( "insertSet", bad ? std::vector< Id >{ Id( i ) } : std::vector< Id >{}, [&] { a.insertSet( i, n ); } ); return; }
        a.insertSet( i, n );
        m.insert( m.begin() + i, std::vector< Id >() );
        break;
      }
      case 1:
      {
        IT const i = row( bad );
        sim::log( "eraseSet %lld", (long long) i );
        if( bad ) { close( c ); invalid( "eraseSet", { Id( i ) }, [&] { a.eraseSet( i ); } ); return; }
        a.eraseSet( i );
        m.erase( m.begin() + i );
        break;
      }
      case 2:
      {
        IT const i = row( bad );
        sim::log( "clearSet %lld", (long long) i );
        if( bad ) { close( c ); invalid( "clearSet", { Id( i ) }, [&] { a.clearSet( i ); } ); return; }
        a.clearSet( i );
        m[ std::size_t( i ) ].clear();
        break;
      }
      case 3:
      {
        IT const i = row( bad );
        sim::log( "capacity of %lld", (long long) i );
        bool const set = sim::chance( 1, 2 );
        IT const n = bad ? IT( 3 ) : IT( m[ std::size_t( i ) ].size() + std::size_t( sim::range( 0, 3 ) ) );
        auto const f = [&] { if( set ) a.setCapacityOfSet( i, n ); else a.reserveCapacityOfSet( i, n ); };
        if( bad ) { close( c ); invalid( set ? "setCapacityOfSet" : "reserveCapacityOfSet", { Id( i ) }, f ); return; }
        f();
        break;
      }
      case 4:
      {
        IT const i = row( bad );
        Id const x = sim::range( 0, 30 );
        T const value( E::make( x ) );
        bool const view = sim::chance( 1, 2 );
        sim::log( "contains %lld in %lld", (long long) x, (long long) i );
        bool found = false;
        auto const f = [&] { found = view ? a.toViewConst().contains( i, value ) : a.contains( i, value ); };
        if( bad ) { close( c ); invalid( "contains", { Id( i ) }, f ); return; }
        f();
        auto const & r = m[ std::size_t( i ) ];
        SIM_CHECK( found == ( std::find( r.begin(), r.end(), x ) != r.end() ), "wrong-value", "contains( %lld, %lld ) gives %d", (long long) i, (long long) x, found );
        break;
      }
      default:
      { // the described order of the arrays that are taken over is a requirement too
        ArrayOfArrays< T, IT, MallocBuffer > src;
        std::vector< std::vector< Id > > n( std::size_t( sim::range( 1, 3 ) ) );
        for( auto & r : n )
        {
          for( int k = sim::range( 0, 4 ); k > 0; --k ) r.push_back( sim::range( 0, 30 ) );
          std::sort( r.begin(), r.end() );
          r.erase( std::unique( r.begin(), r.end() ), r.end() );
        }
        sortedArrayManipulation::Description desc = sortedArrayManipulation::SORTED_UNIQUE;
        std::size_t const k = std::size_t( pick( n.size() ) );
        bad = bad && n[ k ].size() > 1;
        if( bad )
        {
          std::size_t const p = std::size_t( pick( n[ k ].size() - 1 ) );
          if( sim::chance( 1, 2 ) ) { n[ k ][ p + 1 ] = n[ k ][ p ]; }
          else std::swap( n[ k ][ p ], n[ k ][ p + 1 ] );
        }
        for( auto const & r : n )
        {
          std::vector< T > v;
          for( Id const x : r ) v.push_back( E::make( x ) );
          src.appendArray( v.begin(), v.end() );
        }
        sim::log( "assimilate %s arrays", bad ? "unordered" : "ordered" );
        if( bad )
        {
          sim::probe( "wrong-description" );
          // on its own container: what it holds afterwards is not looked at again
          ArrayOfSets< T, IT, MallocBuffer > * const dst = new ArrayOfSets< T, IT, MallocBuffer >;
          invalid( "assimilate", {}, [&] { dst->assimilate( std::move( src ), desc ); } );
          return;
        }
        a.assimilate( std::move( src ), desc );
        m = n;
        break;
      }
    }
  }

  void step()
  {
    sim::Span span;
    switch( sim::draw( 9 ) )
    {
      case 0: access( a, "container" ); break;
      case 1: access( a.toView(), "view" ); break;
      case 2: access( a.toViewConst(), "constant view" ); break;
      case 3: case 4: case 5: { auto const v = a.toView(); change( v, true ); break; }
      case 6: change( a, false ); break;
      default: rowsOfTheOwner(); break;
    }
  }
  bool last() { return false; }
};

// ------------------------------------------------------------------ sparsity patterns and matrices
template< typename COL, typename IT, bool MATRIX > struct Chosen { using type = SparsityPattern< COL, IT, MallocBuffer >; };
template< typename COL, typename IT > struct Chosen< COL, IT, true > { using type = CRSMatrix< double, COL, IT, MallocBuffer >; };

template< typename COL, typename IT, bool MATRIX >
struct SparseBox : RowsBox< SparseBox< COL, IT, MATRIX >, COL, IT >
{
  using Base = RowsBox< SparseBox< COL, IT, MATRIX >, COL, IT >;
  using Base::m;
  using Base::close;
  using Base::row;
  using S = typename Chosen< COL, IT, MATRIX >::type;
  using Tag = std::integral_constant< bool, MATRIX >;
  S a;
  I cols = 0;
  std::vector< std::map< Id, Id > > entries;
  Id next = 1;

  COL const * values() const { return a.toViewConst().getColumns(); }
  I rows() const { return a.numRows(); }
  template< typename V > static IT sizeOf( V const & v, IT const i ) { return v.numNonZeros( i ); }
  template< typename V > static IT capacityOf( V const & v, IT const i ) { return v.nonZeroCapacity( i ); }

  void closeMore( Closed & c, I const from, I const n, std::true_type ) { if( a.getEntries() ) c.add( a.getEntries() + from, std::size_t( n ) * sizeof( double ) ); }
  void closeMore( Closed &, I, I, std::false_type ) {}
  void closeMore( Closed & c, I const from, I const n ) { closeMore( c, from, n, Tag() ); }

  template< typename V > static bool insertOne( V & v, IT const r, COL const c, double const x, std::true_type ) { return v.insertNonZero( r, c, x ); }
  template< typename V > static bool insertOne( V & v, IT const r, COL const c, double, std::false_type ) { return v.insertNonZero( r, c ); }
  template< typename V > static void insertMany( V & v, IT const r, std::vector< COL > const & c, std::vector< double > const & x, std::true_type ) { v.insertNonZeros( r, c.data(), x.data(), IT( c.size() ) ); }
  template< typename V > static void insertMany( V & v, IT const r, std::vector< COL > const & c, std::vector< double > const &, std::false_type ) { v.insertNonZeros( r, c.begin(), c.end() ); }
  template< typename V > static void removeMany( V & v, IT const r, std::vector< COL > const & c, std::true_type ) { v.removeNonZeros( r, c.data(), IT( c.size() ) ); }
  template< typename V > static void removeMany( V & v, IT const r, std::vector< COL > const & c, std::false_type ) { v.removeNonZeros( r, c.begin(), c.end() ); }

  void build()
  {
    int const n = sim::range( 0, 4 );
    cols = sim::range( 1, 9 );
    a.resize( IT( n ), IT( cols ), IT( sim::range( 0, 3 ) ) );
    m.resize( std::size_t( n ) );
    entries.resize( std::size_t( n ) );
    for( int r = 0; r < n; ++r )
    {
      for( int k = sim::range( 0, 4 ); k > 0; --k )
      {
        COL const c = COL( pick( std::size_t( cols ) ) );
        if( entries[ std::size_t( r ) ].count( Id( c ) ) ) continue;
        insertOne( a, IT( r ), c, double( next ), Tag() );
        entries[ std::size_t( r ) ][ Id( c ) ] = next++;
      }
      if( sim::chance( 1, 2 ) ) a.setRowCapacity( IT( r ), IT( entries[ std::size_t( r ) ].size() + std::size_t( sim::range( 0, 2 ) ) ) );
    }
    sync();
    sim::log( "%s: %d rows, %lld columns", MATRIX ? "matrix" : "pattern", n, (long long) cols );
  }
  void sync()
  {
    for( std::size_t r = 0; r < m.size(); ++r ) { m[ r ].clear(); for( auto const & e : entries[ r ] ) m[ r ].push_back( e.first ); }
  }

  template< typename V > void columns( V const & v, char const * const who )
  {
    bool bad = sim::chance( 1, 3 );
    IT const r = row( bad );
    int const how = int( sim::draw( 4 ) );
    sim::log( "%s row %lld (%d)", who, (long long) r, how );
    if( bad )
    {
      Closed c;
      close( c );
      invalid( how == 0 ? "getColumns" : how == 1 ? "numNonZeros" : how == 2 ? "nonZeroCapacity" : "empty", { Id( r ) }, [&]
      {
        if( how == 0 ) (void) v.getColumns( r );
        else if( how == 1 ) (void) v.numNonZeros( r );
        else if( how == 2 ) (void) v.nonZeroCapacity( r );
        else (void) v.empty( r );
      } );
      return;
    }
    auto const & e = m[ std::size_t( r ) ];
    bad = e.empty() || sim::chance( 1, 2 );
    IT const j = bad ? outside< IT >( e.size() ) : IT( pick( e.size() ) );
    sim::log( "  column %lld", (long long) j );
    if( bad ) { Closed c; close( c ); invalid( "column of a row", { Id( j ) }, [&] { COL volatile x = v.getColumns( r )[ j ]; (void) x; } ); return; }
    SIM_CHECK( Id( v.getColumns( r )[ j ] ) == e[ std::size_t( j ) ], "wrong-value", "column %lld of row %lld is %lld instead of %lld", (long long) j, (long long) r, (long long) v.getColumns( r )[ j ], (long long) e[ std::size_t( j ) ] );
    entry( v, r, j, e[ std::size_t( j ) ], Tag() );
  }
  template< typename V > void entry( V const &, IT, IT, Id, std::false_type ) {}
  template< typename V > void entry( V const & v, IT const r, IT const j, Id const col, std::true_type )
  {
    SIM_CHECK( Id( v.getEntries( r )[ j ] ) == entries[ std::size_t( r ) ][ col ], "wrong-value", "the entry of column %lld in row %lld is %g", (long long) col, (long long) r, v.getEntries( r )[ j ] );
    bool bad = sim::chance( 1, 2 );
    if( !bad ) return;
    Closed c;
    close( c );
    if( sim::chance( 1, 2 ) )
    {
      IT const k = outside< IT >( m[ std::size_t( r ) ].size() );
      invalid( "entry of a row", { Id( k ) }, [&] { double volatile x = v.getEntries( r )[ k ]; (void) x; } );
    }
    else
    {
      IT const k = outside< IT >( m.size() );
      invalid( "getEntries", { Id( k ) }, [&] { (void) v.getEntries( k ); } );
    }
  }

  template< typename V > void change( V & v, bool const fixed )
  {
    bool bad = sim::chance( 1, 4 );
    IT const r = row( bad );
    bool const badRow = bad;
    bool const many = sim::chance( 1, 2 ), insert = sim::chance( 2, 3 );
    std::vector< Id > ids;
    for( int n = many ? sim::range( 0, 4 ) : 1; n > 0; --n ) ids.push_back( pick( std::size_t( cols ) ) );
    std::sort( ids.begin(), ids.end() );
    ids.erase( std::unique( ids.begin(), ids.end() ), ids.end() );
    Id badCol = 0;
    bool unordered = false;
    if( !badRow && !ids.empty() && sim::chance( 1, 3 ) )
    { // keeps the order, so that only the column is wrong
      sim::probe( "bad-column" );
      if( std::is_signed< COL >::value && sim::chance( 1, 2 ) ) { badCol = -sim::range( 1, 5 ); ids.front() = badCol; }
      else { badCol = Id( cols ) + sim::range( 0, 5 ); ids.back() = badCol; }
    }
    else if( asserted && !badRow && ids.size() > 1 && sim::chance( 1, 3 ) )
    {
      unordered = true;
      int const k = pick( ids.size() - 1 );
      if( sim::chance( 1, 2 ) ) ids[ std::size_t( k + 1 ) ] = ids[ std::size_t( k ) ];
      else std::swap( ids[ std::size_t( k ) ], ids[ std::size_t( k + 1 ) ] );
      sim::probe( "unordered" );
    }
    bool const badColumn = !ids.empty() && ( ids.front() < 0 || ids.back() >= cols );
    std::vector< COL > c;
    std::vector< double > x;
    std::map< Id, Id > e;
    if( !badRow ) e = entries[ std::size_t( r ) ];
    for( Id const id : ids )
    {
      c.push_back( COL( id ) );
      x.push_back( double( next ) );
      if( !badColumn && !unordered ) { if( insert ) e.insert( { id, next } ); else e.erase( id ); }
      ++next;
    }
    bool const full = fixed && insert && !badRow && I( e.size() ) > I( a.nonZeroCapacity( r ) );
    sim::log( "%s %s row %lld %s", fixed ? "view" : "container", insert ? "insert into" : "remove from", (long long) r, scn::show( ids ).c_str() );
    auto const f = [&]
    {
      if( many ) { if( insert ) insertMany( v, r, c, x, Tag() ); else removeMany( v, r, c, Tag() ); }
      else { if( insert ) insertOne( v, r, c[ 0 ], x[ 0 ], Tag() ); else v.removeNonZero( r, c[ 0 ] ); }
    };
    if( badRow || badColumn || unordered || full )
    {
      if( full ) sim::probe( "over-capacity" );
      Closed closed;
      close( closed );
      std::vector< Id > named;
      if( badRow ) named.push_back( r );
      if( badColumn ) named.push_back( badCol );
      invalid( insert ? "insertNonZero(s)" : "removeNonZero(s)", named, f );
      return;
    }
    f();
    entries[ std::size_t( r ) ] = e;
    sync();
  }

  void adding( std::false_type ) { rowsOfTheOwner(); }
  void adding( std::true_type )
  {
    bool bad = sim::chance( 1, 5 );
    IT const r = row( bad );
    int const how = int( sim::draw( 4 ) );
    std::vector< COL > c;
    std::vector< double > x;
    bool absent = false, unordered = false;
    if( !bad )
    {
      auto const & e = entries[ std::size_t( r ) ];
      for( auto const & k : e ) if( sim::chance( 2, 3 ) ) c.push_back( COL( k.first ) );
      if( asserted && sim::chance( 1, 2 ) )
      { // a column that has no entry, with luck one that had
        for( int t = 0; t < 5 && !absent; ++t )
        {
          Id const col = sim::chance( 1, 6 ) ? Id( cols ) + sim::range( 0, 2 ) : Id( pick( std::size_t( cols ) ) );
          if( !e.count( col ) ) { c.push_back( COL( col ) ); absent = true; }
        }
        std::sort( c.begin(), c.end() );
      }
      else if( asserted && how != 3 && c.size() > 1 && sim::chance( 1, 2 ) )
      {
        unordered = true;
        std::size_t const k = std::size_t( pick( c.size() - 1 ) );
        if( sim::chance( 1, 3 ) ) c[ k + 1 ] = c[ k ];
        else std::swap( c[ k ], c[ k + 1 ] );
      }
    }
    for( std::size_t k = 0; k < c.size(); ++k ) x.push_back( double( 10 + sim::range( 0, 5 ) ) );
    std::vector< Id > ids( c.begin(), c.end() );
    sim::log( "add to row %lld %s (%d)", (long long) r, scn::show( ids ).c_str(), how );
    auto const v = a.toViewConstSizes();
    auto const f = [&]
    {
      if( how == 0 ) v.template addToRow< RAJA::seq_atomic >( r, c.data(), x.data(), IT( c.size() ) );
      else if( how == 1 ) v.template addToRowBinarySearch< RAJA::seq_atomic >( r, c.data(), x.data(), IT( c.size() ) );
      else if( how == 2 ) v.template addToRowLinearSearch< RAJA::seq_atomic >( r, c.data(), x.data(), IT( c.size() ) );
      else v.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( r, c.data(), x.data(), IT( c.size() ) );
    };
    if( bad || absent || unordered )
    {
      if( absent ) sim::probe( "absent-column" );
      Closed closed;
      close( closed );
      invalid( "adding", bad ? std::vector< Id >{ Id( r ) } : std::vector< Id >{}, f );
      // the columns before the absent one may have been added to
      if( absent ) for( auto & e : entries[ std::size_t( r ) ] )
        {
          IT const j = IT( std::distance( entries[ std::size_t( r ) ].begin(), entries[ std::size_t( r ) ].find( e.first ) ) );
          Id const now = Id( a.getEntries( r )[ j ] );
          bool const mentioned = std::find( c.begin(), c.end(), COL( e.first ) ) != c.end();
          std::size_t const at = std::size_t( std::find( c.begin(), c.end(), COL( e.first ) ) - c.begin() );
          SIM_CHECK( now == e.second || ( mentioned && now == e.second + Id( x[ at ] ) ), "value-damaged", "the entry of column %lld in row %lld became %lld", (long long) e.first, (long long) r, (long long) now );
          e.second = now;
        }
      return;
    }
    f();
    for( std::size_t k = 0; k < c.size(); ++k ) entries[ std::size_t( r ) ][ Id( c[ k ] ) ] += Id( x[ k ] );
  }

  void rowsOfTheOwner()
  {
    bool bad = sim::chance( 1, 2 );
    Closed c;
    switch( sim::draw( 3 ) )
    {
      case 0:
      {
        IT const r = row( bad );
        sim::log( "capacity of row %lld", (long long) r );
        IT const n = bad ? IT( 2 ) : IT( m[ std::size_t( r ) ].size() + std::size_t( sim::range( 0, 3 ) ) );
        bool const set = sim::chance( 1, 2 );
        auto const f = [&] { if( set ) a.setRowCapacity( r, n ); else a.reserveNonZeros( r, n ); };
        if( bad ) { close( c ); invalid( set ? "setRowCapacity" : "reserveNonZeros", { Id( r ) }, f ); return; }
        f();
        break;
      }
      case 1:
      {
        bool const badCols = sim::chance( 1, 2 );
        if( !badCols && !asserted ) break;    // the number of rows is an assertion
        IT const r = badCols ? IT( m.size() ) : IT( -sim::range( 1, 3 ) );
        IT const n = badCols ? IT( -sim::range( 1, 3 ) ) : IT( cols );
        sim::log( "resize to %lld x %lld", (long long) r, (long long) n );
        close( c );
        invalid( "resize", {}, [&] { a.resize( r, n, IT( 0 ) ); } );
        break;
      }
      default:
        a.compress();
        break;
    }
  }

  void step()
  {
    sim::Span span;
    switch( sim::draw( 10 ) )
    {
      case 0: columns( a, "container" ); break;
      case 1: columns( a.toView(), "view" ); break;
      case 2: columns( a.toViewConst(), "constant view" ); break;
      case 3: case 4: { auto const v = a.toView(); change( v, true ); break; }
      case 5: case 6: change( a, false ); break;
      case 7: case 8: adding( Tag() ); break;
      default: rowsOfTheOwner(); break;
    }
  }
  bool last() { return false; }

  void verifyEntries( std::false_type ) {}
  void verifyEntries( std::true_type )
  {
    for( std::size_t r = 0; r < m.size(); ++r )
    {
      IT j = 0;
      for( auto const & e : entries[ r ] )
      {
        Id const x = Id( a.getEntries( IT( r ) )[ j++ ] );
        SIM_CHECK( x == e.second, "value-damaged", "the entry of column %lld in row %zu is %lld instead of %lld", (long long) e.first, r, (long long) x, (long long) e.second );
      }
    }
  }
  void verify()
  {
    SIM_CHECK( rows() == I( m.size() ), "wrong-size", "there are %lld rows instead of %zu", (long long) rows(), m.size() );
    SIM_CHECK( I( a.numColumns() ) == cols, "wrong-size", "there are %lld columns instead of %lld", (long long) a.numColumns(), (long long) cols );
    for( std::size_t r = 0; r < m.size(); ++r )
    {
      std::vector< Id > x;
      for( IT j = 0; j < a.numNonZeros( IT( r ) ); ++j ) x.push_back( Id( a.getColumns( IT( r ) )[ j ] ) );
      SIM_CHECK( x == m[ r ], "value-damaged", "row %zu has the columns %s instead of %s", r, scn::show( x ).c_str(), scn::show( m[ r ] ).c_str() );
    }
    verifyEntries( Tag() );
  }
};

// ------------------------------------------------------------------ a run
template< typename BOX >
void run()
{
  LeakCheck leaks;
  g_sawStop = false;
  {
    std::unique_ptr< BOX > owner( new BOX );
    BOX & box = *owner;
    box.build();
    box.verify();
    for( int n = 0; n < 14 && sim::more( 8 ); ++n )
    {
      box.step();
      box.verify();
    }
    if( box.last() ) owner.release(); // its sizes may be anything after that
  }
  if( !g_sawStop ) leaks.check( "everything was destroyed" ); // what a stopped operation held is gone with the process
}

} // namespace

void scenarioWarmup() {}

void scenario()
{
  switch( sim::draw( 23 ) )
  {
    case 0: run< NdBox< std::int64_t, 1, RAJA::PERM_I, I > >(); break;
    case 1: run< NdBox< Tracked, 1, RAJA::PERM_I, int > >(); break;
    case 2: run< NdBox< int, 2, RAJA::PERM_IJ, I > >(); break;
    case 3: run< NdBox< Tracked, 2, RAJA::PERM_JI, int > >(); break;
    case 4: run< NdBox< double, 3, RAJA::PERM_KJI, I > >(); break;
    case 5: run< NdBox< std::int64_t, 3, RAJA::PERM_IKJ, int > >(); break;
    case 6: run< NdBox< int, 4, RAJA::PERM_KILJ, I > >(); break;
    case 22: run< NdBox< double, 4, RAJA::PERM_JIKL, int > >(); break;
    case 7: run< SortedBox< std::int64_t, I > >(); break;
    case 8: run< SortedBox< Tracked, int > >(); break;
    case 9: case 10: run< RaggedBox< std::int64_t, I > >(); break;
    case 11: run< RaggedBox< int, int > >(); break;
    case 12: case 13: run< RaggedBox< Tracked, I > >(); break;
    case 14: run< SetsBox< std::int64_t, I > >(); break;
    case 15: run< SetsBox< Tracked, I > >(); break;
    case 16: run< SetsBox< int, int > >(); break;
    case 17: run< SparseBox< std::int64_t, I, false > >(); break;
    case 18: run< SparseBox< unsigned, int, false > >(); break;
    case 19: run< SparseBox< int, I, true > >(); break;
    case 20: run< SparseBox< std::int64_t, int, true > >(); break;
    default: run< SparseBox< short, I, true > >(); break;
  }
}
