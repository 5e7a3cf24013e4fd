// C19: arrays are parsed from text correctly or refused.
#include "common.hpp"
#include "input.hpp"
#include <cmath>
#include <cstring>

using namespace LvArray;
using namespace scn;

namespace
{

// ------------------------------------------------------------------ what a text means
/// One value; the text has no delimiters and no white space in it.
template< typename T > struct Value;
template< typename INT > struct IntValue
{
  static bool parse( std::string const & s, INT & out )
  {
    std::size_t i = 0;
    bool const minus = s.size() > 0 && s[ 0 ] == '-';
    if( i < s.size() && ( s[ i ] == '-' || s[ i ] == '+' ) ) ++i;
    if( i == s.size() ) return false;
    __int128 v = 0;
    for(; i < s.size(); ++i )
    {
      if( s[ i ] < '0' || s[ i ] > '9' ) return false;
      v = v * 10 + ( s[ i ] - '0' );
      if( v > ( __int128( 1 ) << 70 ) ) v = __int128( 1 ) << 70;
    }
    if( minus ) v = -v;
    out = INT( v );
    return v >= std::numeric_limits< INT >::min() && v <= std::numeric_limits< INT >::max();
  }
  static std::string draw()
  {
    static char const * const EDGE[] = { "0", "-1", "+7", "007", "2147483647", "-2147483648" };
    if( sim::chance( 1, 8 ) ) return EDGE[ sim::draw( 6 ) ];
    return std::to_string( sim::range( -999, 999 ) );
  }
};
template<> struct Value< int > : IntValue< int > {};
template<> struct Value< std::int64_t > : IntValue< std::int64_t > {};
template<> struct Value< double >
{
  static bool parse( std::string const & s, double & out )
  {
    std::size_t i = 0, digits = 0;
    auto const eat = [ & ]{ std::size_t k = 0; while( i < s.size() && s[ i ] >= '0' && s[ i ] <= '9' ) { ++i; ++k; } return k; };
    if( i < s.size() && ( s[ i ] == '-' || s[ i ] == '+' ) ) ++i;
    digits += eat();
    if( i < s.size() && s[ i ] == '.' ) { ++i; digits += eat(); }
    if( digits == 0 ) return false;
    if( i < s.size() && ( s[ i ] == 'e' || s[ i ] == 'E' ) )
    {
      ++i;
      if( i < s.size() && ( s[ i ] == '-' || s[ i ] == '+' ) ) ++i;
      if( eat() == 0 ) return false;
    }
    if( i != s.size() ) return false;
    out = std::strtod( s.c_str(), nullptr );
    return !std::isinf( out );
  }
  static std::string draw()
  {
    static char const * const EDGE[] = { "0", "-0.5", "1e3", ".25", "2.", "-1.5e-2", "+3", "1E+2", "123456789.125" };
    if( sim::chance( 1, 3 ) ) return EDGE[ sim::draw( 9 ) ];
    char b[ 40 ];
    std::snprintf( b, sizeof( b ), "%.3f", sim::range( -99, 99 ) * 0.125 );
    return b;
  }
};
template<> struct Value< std::string >
{
  static bool parse( std::string const & s, std::string & out ) { out = s; return !s.empty(); }
  static std::string draw()
  {
    static char const * const SOME[] = { "a", "set1", "0", "x-y", "\"quoted\"", "a.long_name_that_does_not_fit_inside_the_string_object", "\xc3\xa4", "*" };
    return SOME[ sim::draw( 8 ) ];
  }
};

/// The meaning of a text. STRICT: exactly the documented notation, blanks may be anywhere but inside a value. LENIENT: other white space
/// may also surround the parts; whether such a text is accepted is not specified, but if it is then with this meaning.
template< typename T > struct Meaning
{
  bool ok = false;
  bool null = false;
  std::vector< I > dims;
  std::vector< T > values;
};

template< typename T, int NDIM > struct Parser
{
  std::string const & s;
  bool lenient;
  std::size_t i = 0;
  Meaning< T > m;
  bool blank( char const c ) const { return c == ' ' || ( lenient && std::isspace( static_cast< unsigned char >( c ) ) ); }
  void skip() { while( i < s.size() && blank( s[ i ] ) ) ++i; }
  bool group( int const level )
  {
    skip();
    if( i >= s.size() || s[ i ] != '{' ) return false;
    ++i;
    I n = 0;
    while( true )
    {
      skip();
      if( level + 1 < NDIM ) { if( !group( level + 1 ) ) return false; }
      else
      {
        std::size_t const from = i;
        while( i < s.size() && s[ i ] != '{' && s[ i ] != '}' && s[ i ] != ',' && !std::isspace( static_cast< unsigned char >( s[ i ] ) ) ) ++i;
        T v;
        if( !Value< T >::parse( s.substr( from, i - from ), v ) ) return false;
        m.values.push_back( v );
      }
      ++n;
      skip();
      if( i >= s.size() ) return false;
      if( s[ i ] == ',' ) { ++i; continue; }
      if( s[ i ] != '}' ) return false;
      ++i;
      break;
    }
    if( m.dims[ level ] == 0 ) m.dims[ level ] = n;
    return m.dims[ level ] == n;
  }
  Meaning< T > run()
  {
    m.dims.assign( NDIM, 0 );
    std::string bare;
    for( char const c : s ) if( !blank( c ) ) bare += c;
    if( bare == "{}" ) { m.ok = m.null = true; return m; }
    m.ok = group( 0 );
    skip();
    m.ok = m.ok && i == s.size();
    return m;
  }
};
template< typename T, int NDIM > Meaning< T > meaning( std::string const & s, bool const lenient )
{ Parser< T, NDIM > p{ s, lenient, 0, {} }; return p.run(); }

// ------------------------------------------------------------------ texts
std::string blanks( std::uint32_t const style )
{
  if( style == 0 ) return "";
  if( style == 1 ) return " ";
  return std::string( sim::draw( 4 ), ' ' );
}

template< typename T > void write( std::string & out, I const * const dims, int const ndim, std::uint32_t const style )
{
  out += blanks( style );
  if( ndim == 0 ) { out += Value< T >::draw(); out += blanks( style ); return; }
  out += '{';
  for( I i = 0; i < dims[ 0 ]; ++i )
  {
    if( i > 0 ) out += ',';
    write< T >( out, dims + 1, ndim - 1, style );
  }
  out += '}';
  out += blanks( style );
}

/// Faults of the text: what a truncated file, a typing error or a bad memory cell makes of it.
void corrupt( std::string & s )
{
  static char const ALPHABET[] = "{},, -+.e0159ax\t\n{}\0\xff\"";
  if( s.empty() ) return;
  std::uint32_t const at = sim::faultValue( std::uint32_t( s.size() ) );
  char const c = ALPHABET[ sim::faultValue( sizeof( ALPHABET ) - 1 ) ];
  switch( sim::faultValue( 10 ) )
  {
    case 0: s.resize( at ); sim::fault_fired( "text-truncated" ); break;
    case 1: s.erase( 0, at + 1 ); sim::fault_fired( "text-head-lost" ); break;
    case 2: case 3: s.erase( at, 1 ); sim::fault_fired( "byte-lost" ); break;
    case 4: case 5: s.insert( at, 1, c ); sim::fault_fired( "byte-inserted" ); break;
    case 6: s[ at ] = c; sim::fault_fired( "byte-replaced" ); break;
    case 7: s[ at ] = char( s[ at ] ^ ( 1 << sim::faultValue( 7 ) ) ); sim::fault_fired( "bit-flipped" ); break;
    case 8: std::swap( s[ at ], s[ sim::faultValue( std::uint32_t( s.size() ) ) ] ); sim::fault_fired( "bytes-exchanged" ); break;
    default:
    { // a part of the text twice
      std::uint32_t const n = 1 + sim::faultValue( std::uint32_t( s.size() - at ) );
      s.insert( at, s.substr( at, n ) );
      sim::fault_fired( "part-duplicated" );
    }
  }
}

/// Texts that look nearly right.
std::string crafted()
{
  static char const * const T[] = {
    "", " ", "{", "}", "{}", "{ }", "{}{}", "}{", "{{}}", "{{},{}}", "{,}", "{1,}", "{,1}", "{1,,2}", "{1-2,}", "{1 2}", "{1,2}3", "3{1,2}", "{1,{2}}", "{{1},2}", "{{1,2},{3}}", "{{1},{2,3}}", "{{1,2},{3,4}}",
    "{{1},{{2}}}", "{{{1}}}", "{{1,2},{3-4,}}", "{1.5.5,}", "{a b}", "{\t,1-2}", "{1}{2}", "{{1}{2}}", "{{1,2}3}", "{{1,2},}", "{{1,2}},{3,4}}", "{{{1,2},{3,4}},{{5,6},{7}}}", "{{1,2},{3,4},{5,6,7}}", "{99999999999999999999}", "{1e999}", "{-}", "{+-1}", "{0x10}" };
  return T[ sim::draw( sizeof( T ) / sizeof( T[ 0 ] ) ) ];
}

bool same( double const a, double const b ) { return std::memcmp( &a, &b, sizeof( a ) ) == 0; }
template< typename T > bool same( T const & a, T const & b ) { return a == b; }
std::string text( std::string const & s ) { std::string r; for( char const c : s.substr( 0, 200 ) ) { if( c >= 32 && c < 127 ) r += c; else { char b[ 8 ]; std::snprintf( b, 8, "\\%02x", c & 255 ); r += b; } } return r; }

template< typename T, typename SLICE > void flatten( SLICE const & s, std::vector< T > & out, std::integral_constant< int, 1 > )
{ for( I i = 0; i < s.size(); ++i ) out.push_back( s[ i ] ); }
template< typename T, typename SLICE, int N > void flatten( SLICE const & s, std::vector< T > & out, std::integral_constant< int, N > )
{ for( I i = 0; i < s.size( 0 ); ++i ) flatten< T >( s[ i ], out, std::integral_constant< int, N - 1 >() ); }

template< typename T, typename ARRAY, int MAXSIZE >
void parseInto( ARRAY & a, int const me, bool const alone )
{
  sim::Span span;
  constexpr int NDIM = ARRAY::NDIM;
  std::string s;
  bool const craft = sim::chance( 1, 4 );
  if( craft ) s = crafted();
  else
  {
    I dims[ NDIM ];
    I size = 1;
    for( I & d : dims ) { d = sim::range( 1, NDIM == 1 ? 9 : 4 ); if( size * d > MAXSIZE ) d = 1; size *= d; }
    write< T >( s, dims, NDIM, sim::draw( 3 ) );
    if( sim::chance( 1, 20 ) ) s = "{" + blanks( 2 ) + "}";
  }
  if( sim::faultsEnabled() && !s.empty() && sim::faultPoint( "corrupted-text", 500 ) )
  {
    corrupt( s );
    while( sim::faultPoint( "corrupted-again", 250 ) ) corrupt( s );
  }
  Meaning< T > const strict = meaning< T, NDIM >( s, false );
  Meaning< T > const lenient = meaning< T, NDIM >( s, true );
  if( !alone && !strict.ok ) return;
  I size = 1;
  for( I const d : lenient.dims ) size *= d;
  if( lenient.ok && size > MAXSIZE ) return; // more than this array has room for
  sim::log( "%d: parse %s", me, text( s ).c_str() );
  if( s.size() > 3 ) sim::probe( "nontrivial" );
  bool const asChars = s.find( '\0' ) == std::string::npos && sim::chance( 1, 4 );
  std::string thrown;
  auto const parse = [ & ]
  {
    try
    {
      if( asChars )
      { // from a buffer that ends with the text
        char * const p = static_cast< char * >( sim::hostAlloc( s.size() + 1 ) );
        std::memcpy( p, s.c_str(), s.size() + 1 );
        input::stringToArray( a, p );
        sim::hostFree( p );
      }
      else input::stringToArray( a, s );
    }
    catch( std::exception const & e ) { thrown = e.what(); if( thrown.empty() ) thrown = "an exception"; }
  };
  bool stopped;
  if( strict.ok ) { parse(); stopped = false; } // an error report ends the run as a violation
  else stopped = sim::stops( parse );
  if( stopped )
  { // the process of the application ended here
    SIM_CHECK( !sim::stopOutput().empty(), "no-message", "%s is refused without a message", text( s ).c_str() );
    sim::probe( "refused" );
    return;
  }
  SIM_CHECK( thrown.empty(), "unexpected-exception", "parsing %s throws %s", text( s ).c_str(), thrown.c_str() );
  SIM_CHECK( lenient.ok, "accepted-bad-text", "%s is accepted", text( s ).c_str() );
  if( lenient.null ) { SIM_CHECK( a.size() == 0 && a.empty(), "wrong-size", "the empty text gives %d values", int( a.size() ) ); sim::probe( "null-text" ); return; }
  for( int d = 0; d < NDIM; ++d ) SIM_CHECK( a.size( d ) == lenient.dims[ d ], "wrong-size", "dimension %d of %s is %d", d, text( s ).c_str(), int( a.size( d ) ) );
  SIM_CHECK( a.size() == size, "wrong-size", "%s gives %d values", text( s ).c_str(), int( a.size() ) );
  std::vector< T > got;
  flatten< T >( a.toSliceConst(), got, std::integral_constant< int, NDIM >() );
  for( I i = 0; i < size; ++i ) SIM_CHECK( same( got[ i ], lenient.values[ i ] ), "wrong-value", "value %d of %s is wrong", int( i ), text( s ).c_str() );
  sim::probe( "accepted" );
  if( !strict.ok ) sim::probe( "lenient" );
}

template< typename T, typename ARRAY, int MAXSIZE >
void run()
{
  LeakCheck leaks;
  bool const faults = sim::chance( 1, 2 );
  sim::setFaultsEnabled( faults );
  int const n = !faults && sim::chance( 1, 3 ) ? sim::range( 2, 3 ) : 1;
  callers( n, [ n ]( int const t )
  {
    ARRAY a;
    int const rounds = sim::range( 1, 4 );
    for( int r = 0; r < rounds && sim::stopCount() == 0; ++r ) parseInto< T, ARRAY, MAXSIZE >( a, t, n == 1 );
  } );
  if( sim::stopCount() == 0 ) leaks.check( "the arrays were destroyed" );
}

template< typename T, typename PERM > using Heap = Array< T, typeManipulation::getDimension( PERM {} ), PERM, I, MallocBuffer >;
template< typename T > using Buffer60 = StackBuffer< T, 60 >;

} // namespace

void scenarioWarmup() {}

void scenario()
{
  switch( sim::draw( 13 ) )
  {
    case 0: run< int, Heap< int, RAJA::PERM_I >, 1000 >(); break;
    case 1: run< int, Heap< int, RAJA::PERM_IJ >, 1000 >(); break;
    case 2: run< int, Heap< int, RAJA::PERM_KIJ >, 1000 >(); break;
    case 3: run< double, Heap< double, RAJA::PERM_I >, 1000 >(); break;
    case 4: run< double, Heap< double, RAJA::PERM_JI >, 1000 >(); break;
    case 5: run< double, Heap< double, RAJA::PERM_IJKL >, 1000 >(); break;
    case 6: run< std::string, Heap< std::string, RAJA::PERM_I >, 1000 >(); break;
    case 7: run< std::string, Heap< std::string, RAJA::PERM_IJ >, 1000 >(); break;
    case 8: run< std::string, Heap< std::string, RAJA::PERM_KJI >, 1000 >(); break;
    case 9: run< std::int64_t, Heap< std::int64_t, RAJA::PERM_I >, 1000 >(); break;
    case 10: run< std::int64_t, Heap< std::int64_t, RAJA::PERM_LKIJ >, 1000 >(); break;
    case 11: run< int, Array< int, 2, RAJA::PERM_JI, I, Buffer60 >, 60 >(); break;
    default: run< double, Array< double, 3, RAJA::PERM_IJK, int, Buffer60 >, 60 >(); break;
  }
}
