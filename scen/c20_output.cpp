// C20: text output shows exactly the content and survives stream failures.
#include "common.hpp"
#include "input.hpp"
#include "output.hpp"
#include <cstdarg>
#include <cstring>
#include <sstream>

using namespace LvArray;
using namespace scn;

// ------------------------------------------------------------------ printf of the code under test
namespace { std::string * g_printed = nullptr; }
extern "C" int __wrap_printf( char const * fmt, ... )
{
  char b[ 4096 ];
  va_list ap;
  va_start( ap, fmt );
  int const n = std::vsnprintf( b, sizeof( b ), fmt, ap );
  va_end( ap );
  if( g_printed ) g_printed->append( b );
  return n;
}

extern "C" int __wrap_puts( char const * s ) { if( g_printed ) g_printed->append( s ).append( "\n" ); return 1; }
extern "C" int __wrap_putchar( int const c ) { if( g_printed ) g_printed->append( 1, char( c ) ); return c; }

namespace
{

/// A stream buffer that accepts a limited number of characters, some at a time.
struct Sink : std::streambuf
{
  std::string text;
  std::size_t limit = std::size_t( -1 );
  bool throws = false;
  bool failed = false;
  bool flushFails = false;
  bool recovers = false;             // only one write is refused

  int refuse()
  {
    failed = true;
    if( recovers ) limit = std::size_t( -1 );
    if( throws ) throw std::runtime_error( "the device is full" );
    return traits_type::eof();
  }
  int_type overflow( int_type const c ) override
  {
    if( text.size() >= limit ) return refuse();
    text += traits_type::to_char_type( c );
    return c;
  }
  std::streamsize xsputn( char const * s, std::streamsize const n ) override
  {
    std::size_t const k = std::min( std::size_t( n ), limit - text.size() );
    text.append( s, k );
    if( k < std::size_t( n ) ) refuse();
    return std::streamsize( k );
  }
  int sync() override
  {
    if( !flushFails ) return 0;
    failed = true;
    return -1;
  }
};

/// Everything but white space; white space only matters as a separator of words.
std::vector< std::string > words( std::string const & s )
{
  std::vector< std::string > w;
  std::string cur;
  auto const flush = [ & ]{ if( !cur.empty() ) w.push_back( cur ); cur.clear(); };
  for( char const c : s )
  {
    if( c == ' ' || c == '\n' || c == '\t' ) flush();
    else if( c == '{' || c == '}' || c == ',' ) { flush(); w.push_back( std::string( 1, c ) ); }
    else cur += c;
  }
  flush();
  return w;
}
std::string join( std::vector< std::string > const & w ) { std::string s; for( auto const & x : w ) s += ( s.empty() ? "" : " " ) + x; return s.substr( 0, 300 ); }

struct Format { int precision; bool showpos; bool hex; };

template< typename T > std::string word( T const & t, Format const & f )
{
  std::ostringstream s;
  s.precision( f.precision );
  if( f.showpos ) s << std::showpos;
  if( f.hex ) s << std::hex;
  s << t;
  return s.str();
}

/// Write x to streams, healthy ones and failing ones.
template< typename X, typename HARM >
void show( int const me, char const * const what, X const & x, std::string const & expect, Format const & format, HARM const & unharmed )
{
  sim::Span span;
  auto const prepare = [ & ]( std::ostream & s )
  {
    s.precision( format.precision );
    if( format.showpos ) s << std::showpos;
    if( format.hex ) s << std::hex;
  };
  Sink full;
  std::ostream stream( &full );
  prepare( stream );
  std::ios_base::fmtflags const flags = stream.flags();
  std::ostream & back = stream << x;
  sim::log( "%d: %s %s", me, what, full.text.substr( 0, 100 ).c_str() );
  SIM_CHECK( &back == &stream, "wrong-answer", "the operator returns another stream" );
  SIM_CHECK( stream.good(), "stream-failed", "the stream is not good after printing" );
  SIM_CHECK( stream.flags() == flags && stream.precision() == format.precision && stream.width() == 0, "stream-changed", "the format of the stream changed" );
  auto const got = words( full.text ), want = words( expect );
  SIM_CHECK( got == want, "wrong-text", "%s prints as %s, expected %s", what, join( got ).c_str(), join( want ).c_str() );
  unharmed();

  int const tries = sim::faultsEnabled() ? 3 : 0;
  for( int t = 0; t < tries; ++t )
  {
    if( !sim::faultPoint( "stream-stops", 700 ) ) continue;
    Sink sink;
    std::ostream s( &sink );
    prepare( s );
    std::uint32_t const mode = sim::faultValue( 7 );
    std::size_t const limit = sim::faultValue( std::uint32_t( full.text.size() ) );
    sink.limit = limit;
    if( mode == 1 ) { sink.limit = std::size_t( -1 ); s.setstate( std::ios::failbit ); sim::fault_fired( "stream-already-failed" ); }
    if( mode == 2 ) { sink.throws = true; sim::fault_fired( "stream-buffer-throws" ); }
    if( mode == 3 ) { s.exceptions( std::ios::badbit | std::ios::failbit ); sim::fault_fired( "stream-exceptions" ); }
    if( mode == 4 ) { sink.limit = full.text.size(); sink.flushFails = true; sim::fault_fired( "flush-fails" ); }
    if( mode == 5 ) { sink.recovers = true; sim::fault_fired( "one-write-fails" ); }
    bool thrown = false;
    try { s << x; }
    catch( std::ios_base::failure const & ) { thrown = true; }
    catch( std::runtime_error const & ) { thrown = true; }
    SIM_CHECK( full.text.compare( 0, sink.text.size(), sink.text ) == 0, "not-a-prefix", "the stream that stopped after %zu characters has %s", limit, sink.text.c_str() );
    if( mode == 1 ) SIM_CHECK( sink.text.empty() && s.fail(), "not-a-prefix", "a failed stream was written to" );
    else if( sink.failed ) { SIM_CHECK( !s.good(), "failure-hidden", "the stream is good although its device refused characters" ); }
    if( mode == 3 && sink.failed ) SIM_CHECK( thrown, "failure-hidden", "the exception the application asked for was not thrown" );
    if( mode != 3 ) SIM_CHECK( !thrown, "unexpected-exception", "an exception although the stream has none enabled" );
    if( mode != 4 && mode != 1 && limit > 0 ) SIM_CHECK( sink.text.size() == limit, "stopped-early", "the stream was ready for %zu characters but has %zu", limit, sink.text.size() );
    unharmed();
  }
}

Format drawFormat( bool const numbers )
{
  Format f{ 6, false, false };
  if( sim::chance( 1, 3 ) ) { f.precision = sim::range( 2, 12 ); f.showpos = numbers && sim::chance( 1, 2 ); f.hex = sim::chance( 1, 2 ); }
  return f;
}

Id drawId() { return Id( sim::range( 1, 4000 ) ); }

template< typename T > struct Text { static constexpr bool numbers = true; };
template<> struct Text< std::string > { static constexpr bool numbers = false; };
template< typename T > T drawElem() { return Elem< T >::make( drawId() ); }
template<> std::string drawElem< std::string >() { return "s" + std::to_string( sim::draw( 2000 ) ) + ( sim::chance( 1, 4 ) ? "_with_a_long_name_that_is_on_the_heap" : "" ); }

// ------------------------------------------------------------------ n-dimensional arrays
template< typename T > std::string arrayText( T const * & values, I const * const dims, int const ndim, Format const & f )
{
  if( ndim == 0 ) return word( *values++, f );
  std::string s = "{";
  for( I i = 0; i < dims[ 0 ]; ++i ) s += ( i ? ", " : "" ) + arrayText( values, dims + 1, ndim - 1, f );
  return s + "}";
}

template< typename SLICE, typename T > void fill( SLICE const & s, T const * & v, std::integral_constant< int, 1 > )
{ for( I i = 0; i < I( s.size() ); ++i ) s[ i ] = *v++; }
template< typename SLICE, typename T, int N > void fill( SLICE const & s, T const * & v, std::integral_constant< int, N > )
{ for( I i = 0; i < I( s.size( 0 ) ); ++i ) fill( s[ i ], v, std::integral_constant< int, N - 1 >() ); }
template< typename SLICE, typename T > bool equal( SLICE const & s, T const * & v, std::integral_constant< int, 1 > )
{ for( I i = 0; i < I( s.size() ); ++i ) if( !( s[ i ] == *v++ ) ) return false; return true; }
template< typename SLICE, typename T, int N > bool equal( SLICE const & s, T const * & v, std::integral_constant< int, N > )
{ for( I i = 0; i < I( s.size( 0 ) ); ++i ) if( !equal( s[ i ], v, std::integral_constant< int, N - 1 >() ) ) return false; return true; }

template< typename T > constexpr bool canRead() { return !std::is_same< T, Tracked >::value; }
template< typename ARRAY, typename T > void readBack( ARRAY const & a, std::string const & text, std::vector< T > const & values, std::true_type )
{ // what is written can be parsed back to an equal array
  ARRAY b;
  input::stringToArray( b, text );
  T const * v = values.data();
  for( int d = 0; d < ARRAY::NDIM; ++d ) SIM_CHECK( b.size( d ) == a.size( d ), "not-read-back", "dimension %d is %d when read back", d, int( b.size( d ) ) );
  SIM_CHECK( equal( b.toSliceConst(), v, std::integral_constant< int, ARRAY::NDIM >() ), "not-read-back", "other values when read back: %s", text.c_str() );
  sim::probe( "read-back" );
}
template< typename ARRAY, typename T > void readBack( ARRAY const &, std::string const &, std::vector< T > const &, std::false_type ) {}

template< typename SLICE, typename T, typename HARM > void showPart( int, SLICE const &, std::vector< T > const &, I, std::vector< I > const &, Format const &, HARM const &, std::integral_constant< int, 1 > ) {}
template< typename SLICE, typename T, typename HARM, int N >
void showPart( int const me, SLICE const & s, std::vector< T > const & values, I const first, std::vector< I > const & dims, Format const & f, HARM const & harm, std::integral_constant< int, N > )
{
  if( dims[ 0 ] == 0 ) return;
  I const i = I( sim::draw( std::uint32_t( dims[ 0 ] ) ) );
  I size = 1;
  for( int d = 1; d < N; ++d ) size *= dims[ d ];
  T const * v = values.data() + first + i * size;
  std::vector< I > const rest( dims.begin() + 1, dims.end() );
  show( me, "slice", s[ i ], arrayText( v, rest.data(), N - 1, f ), f, harm );
  sim::probe( "inner-slice" );
  showPart( me, s[ i ], values, first + i * size, rest, f, harm, std::integral_constant< int, N - 1 >() );
}

template< typename T, typename ARRAY > struct ArrayShow
{
  static constexpr int NDIM = ARRAY::NDIM;
  ARRAY a;
  std::vector< I > dims;
  std::vector< T > values;
  Format f;

  ArrayShow(): dims( NDIM ), f( drawFormat( Text< T >::numbers ) )
  {
    I size = 1;
    for( I & d : dims ) { d = sim::chance( 1, 12 ) ? 0 : sim::range( 1, NDIM == 1 ? 8 : 3 ); size *= d; }
    typename ARRAY::IndexType d2[ NDIM ];
    for( int d = 0; d < NDIM; ++d ) d2[ d ] = typename ARRAY::IndexType( dims[ d ] );
    a.resize( NDIM, d2 );
    for( I i = 0; i < size; ++i ) values.push_back( drawElem< T >() );
    T const * v = values.data();
    fill( a.toSlice(), v, std::integral_constant< int, NDIM >() );
    if( size > 1 ) sim::probe( "nontrivial" );
    if( size == 0 ) sim::probe( "empty" );
  }
  void print( int const me ) const
  {
    auto const harm = [ & ]
    {
      T const * v = values.data();
      for( int d = 0; d < NDIM; ++d ) SIM_CHECK( a.size( d ) == dims[ d ], "container-harmed", "dimension %d changed", d );
      SIM_CHECK( equal( a.toSliceConst(), v, std::integral_constant< int, NDIM >() ), "container-harmed", "the values changed" );
    };
    T const * v = values.data();
    std::string const text = arrayText( v, dims.data(), NDIM, f );
    switch( sim::draw( 5 ) )
    {
      case 0: show( me, "array", a, text, f, harm ); break;
      case 1: show( me, "view", a.toView(), text, f, harm ); break;
      case 2: show( me, "const view", a.toViewConst(), text, f, harm ); break;
      case 3: show( me, "const slice", a.toSliceConst(), text, f, harm ); break;
      default: showPart( me, a.toSliceConst(), values, 0, dims, f, harm, std::integral_constant< int, NDIM >() );
    }
    if( !values.empty() && f.precision >= 9 && !f.hex )
    {
      std::ostringstream s;
      s.precision( f.precision );
      s << a;
      readBack( a, s.str(), values, std::integral_constant< bool, canRead< T >() >() );
    }
  }
};

// ------------------------------------------------------------------ other containers
template< typename T > struct SortedShow
{
  SortedArray< T, I, MallocBuffer > a;
  std::set< T > s;
  Format f;
  SortedShow(): f( drawFormat( Text< T >::numbers ) )
  {
    while( sim::more( 6 ) ) s.insert( drawElem< T >() );
    a.insert( s.begin(), s.end() );
    if( s.size() > 1 ) sim::probe( "nontrivial" );
    if( s.empty() ) sim::probe( "empty" );
  }
  void print( int const me ) const
  {
    std::string text = "{";
    for( T const & t : s ) text += ( text.size() > 1 ? ", " : "" ) + word( t, f );
    text += "}";
    auto const harm = [ & ] { SIM_CHECK( a.size() == I( s.size() ) && std::equal( s.begin(), s.end(), a.begin() ), "container-harmed", "the values changed" ); };
    if( sim::chance( 1, 2 ) ) show( me, "sorted array", a, text, f, harm );
    else show( me, "sorted view", a.toView(), text, f, harm );
  }
};

template< typename T > struct RaggedShow
{
  ArrayOfArrays< T, I, MallocBuffer > a;
  std::vector< std::vector< T > > m;
  Format f;
  RaggedShow(): f( drawFormat( Text< T >::numbers ) )
  {
    f.showpos = f.hex = false; // the row numbers are numbers too
    mayRelocateGaps( 1 );
    while( sim::more( 4 ) )
    {
      std::vector< T > row;
      while( sim::more( 3 ) ) row.push_back( drawElem< T >() );
      a.appendArray( row.begin(), row.end() );
      if( sim::chance( 1, 3 ) ) a.setCapacityOfArray( I( m.size() ), I( row.size() ) + 2 );
      m.push_back( row );
    }
    mayRelocateGaps( -1 );
    if( m.size() > 1 ) sim::probe( "nontrivial" );
    if( m.empty() ) sim::probe( "empty" );
  }
  void print( int const me ) const
  {
    std::string text = "{\n";
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      text += std::to_string( i ) + "\t{";
      for( T const & t : m[ i ] ) text += word( t, f ) + ", ";
      text += "}\n";
    }
    text += "}\n";
    auto const harm = [ & ]
    {
      SIM_CHECK( a.size() == I( m.size() ), "container-harmed", "the number of arrays changed" );
      for( I i = 0; i < a.size(); ++i ) SIM_CHECK( a.sizeOfArray( i ) == I( m[ i ].size() ) && std::equal( m[ i ].begin(), m[ i ].end(), a[ i ].begin() ), "container-harmed", "the values changed" );
    };
    if( sim::chance( 1, 2 ) ) show( me, "ragged array", a, text, f, harm );
    else show( me, "ragged view", a.toViewConst(), text, f, harm );
  }
};

template< typename T, typename COL > struct MatrixShow
{
  CRSMatrix< T, COL, I, MallocBuffer > a;
  std::vector< std::map< I, T > > m;
  Format f;
  MatrixShow(): f( drawFormat( Text< T >::numbers ) )
  {
    f.showpos = f.hex = false;
    I const rows = sim::range( 0, 5 ), cols = sim::range( 1, 20 );
    a.resize( rows, COL( cols ), sim::chance( 1, 2 ) ? 3 : 0 );
    m.resize( rows );
    for( auto & row : m )
    {
      I const r = I( &row - m.data() );
      while( sim::more( 3 ) )
      {
        COL const c = COL( sim::draw( std::uint32_t( cols ) ) );
        T const t = drawElem< T >();
        if( row.emplace( I( c ), t ).second ) a.insertNonZero( r, c, t );
      }
    }
    if( sim::chance( 1, 2 ) ) a.compress();
    if( rows > 1 ) sim::probe( "nontrivial" );
    if( rows == 0 ) sim::probe( "empty" );
  }
  void print( int const me ) const
  {
    auto const harm = [ & ]
    {
      SIM_CHECK( a.numRows() == I( m.size() ), "container-harmed", "the number of rows changed" );
      for( I i = 0; i < a.numRows(); ++i )
      {
        SIM_CHECK( a.numNonZeros( i ) == I( m[ i ].size() ), "container-harmed", "row %d changed", int( i ) );
        I k = 0;
        for( auto const & e : m[ i ] ) { SIM_CHECK( I( a.getColumns( i )[ k ] ) == e.first && a.getEntries( i )[ k ] == e.second, "container-harmed", "row %d changed", int( i ) ); ++k; }
      }
    };
    std::string text = "{\n";
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      text += "row " + std::to_string( i ) + "\n\tcolumns: {";
      bool first = true;
      for( auto const & e : m[ i ] ) { text += ( first ? " " : ", " ) + word( COL( e.first ), f ); first = false; }
      text += " }\n\tvalues: {";
      first = true;
      for( auto const & e : m[ i ] ) { text += ( first ? " " : ", " ) + word( e.second, f ); first = false; }
      text += " }\n";
    }
    text += "}\n";
    // only the const view of a matrix has an operator
    show( me, "matrix", a.toViewConst(), text, f, harm );
  }
  void table( int const me ) const
  {
    char b[ 100 ];
    std::string text = "numRows = " + std::to_string( m.size() ) + "\nncols = {";
    for( auto const & row : m ) text += std::to_string( row.size() ) + ", ";
    text += " }\nrow_indexes = {";
    for( std::size_t i = 0; i <= m.size(); ++i ) text += std::to_string( a.toViewConst().getOffsets()[ i ] ) + ", ";
    text += " }\nrow col value \n---- --------- --------- \n";
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      text += std::to_string( m[ i ].size() ) + "\n";
      for( auto const & e : m[ i ] ) { std::snprintf( b, sizeof( b ), "%d %d %9.2g\n", int( i ), int( e.first ), double( e.second ) ); text += b; }
    }
    std::string printed;
    g_printed = &printed;
    print_( sim::draw( 2 ) );
    g_printed = nullptr;
    sim::log( "%d: table %s", me, printed.substr( 0, 80 ).c_str() );
    auto const got = words( printed ), want = words( text );
    SIM_CHECK( got == want, "wrong-text", "the table is %s, expected %s", join( got ).c_str(), join( want ).c_str() );
    sim::probe( "table" );
  }
  void print_( std::uint32_t const policy ) const
  {
    if( policy == 0 ) LvArray::print< RAJA::loop_exec >( a.toViewConst() );
    else LvArray::print< RAJA::omp_parallel_for_exec >( a.toViewConst() );
  }
};

void carrays( int const me )
{
  Format const f = drawFormat( true );
  I const dims[ 2 ] = { 3, 4 };
  int x[ 3 ][ 4 ];
  std::vector< int > values;
  for( auto & r : x ) for( int & e : r ) { e = int( drawId() ); values.push_back( e ); }
  int const * v = values.data();
  std::string const text = arrayText( v, dims, 2, f );
  std::string const first = ( v = values.data(), arrayText( v, dims + 1, 1, f ) );
  std::ostringstream s;
  s.precision( f.precision );
  if( f.showpos ) s << std::showpos;
  if( f.hex ) s << std::hex;
  LvArray::operator<<( s, x );
  SIM_CHECK( words( s.str() ) == words( text ), "wrong-text", "a c-array prints as %s", s.str().c_str() );
  s.str( "" );
  LvArray::operator<<( s, x[ 0 ] );
  SIM_CHECK( words( s.str() ) == words( first ), "wrong-text", "a c-array prints as %s", s.str().c_str() );
  sim::log( "%d: c-array", me );
  sim::probe( "c-array" );
}

/// Printing is reading: several threads may print the same container.
template< typename S >
void run()
{
  LeakCheck leaks;
  {
    S const shown;
    int const n = sim::chance( 1, 3 ) ? sim::range( 2, 3 ) : 1;
    callers( n, [ &shown ]( int const t )
    {
      int const rounds = sim::range( 1, 3 );
      for( int r = 0; r < rounds; ++r ) shown.print( t );
    } );
  }
  leaks.check( "the container was destroyed" );
}

template< typename T, typename PERM, typename IT=I > using Heap = Array< T, typeManipulation::getDimension( PERM {} ), PERM, IT, MallocBuffer >;

template< typename MATRIX > void tables()
{
  LeakCheck leaks;
  {
    MATRIX const m;
    m.table( 0 );
  }
  leaks.check( "the matrix was destroyed" );
}

} // namespace

void scenarioWarmup()
{
  std::ostringstream s;
  s << 1.5 << std::showpos << 2 << std::endl;
  std::istringstream i( "1 2.5" );
  double x; i >> x;
}

void scenario()
{
  sim::setFaultsEnabled( sim::chance( 1, 2 ) );
  switch( sim::draw( 18 ) )
  {
    case 0: run< ArrayShow< int, Heap< int, RAJA::PERM_I > > >(); break;
    case 1: run< ArrayShow< double, Heap< double, RAJA::PERM_IJ > > >(); break;
    case 2: run< ArrayShow< int, Heap< int, RAJA::PERM_KJI, int > > >(); break;
    case 3: run< ArrayShow< std::string, Heap< std::string, RAJA::PERM_JI > > >(); break;
    case 4: run< ArrayShow< Tracked, Heap< Tracked, RAJA::PERM_JIK > > >(); break;
    case 5: run< ArrayShow< std::int64_t, Heap< std::int64_t, RAJA::PERM_IJKL > > >(); break;
    case 6: run< ArrayShow< double, Heap< double, RAJA::PERM_I, int > > >(); break;
    case 7: run< SortedShow< int > >(); break;
    case 8: run< SortedShow< std::string > >(); break;
    case 9: run< SortedShow< double > >(); break;
    case 10: run< RaggedShow< int > >(); break;
    case 11: run< RaggedShow< std::string > >(); break;
    case 12: run< RaggedShow< Tracked > >(); break;
    case 13: run< MatrixShow< double, int > >(); break;
    case 14: run< MatrixShow< int, I > >(); break;
    case 15: run< MatrixShow< std::int64_t, short > >(); break;
    case 16: tables< MatrixShow< double, I > >(); break;
    default: if( sim::chance( 1, 2 ) ) tables< MatrixShow< int, int > >(); else carrays( 0 );
  }
}
