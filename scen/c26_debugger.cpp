// C26: the table a debugger asks for shows the lengths, strides and storage of an array where they are.
// The simulated debugger stops the program between operations and in the middle of them (in constructors, copies and
// assignments of elements), opens a table, lets arrays, slices and the user's own rows be added to it until it is full,
// and reads the memory the rows refer to.
#include "common.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"

#include <cxxabi.h>
#include <memory>
#include <typeinfo>

#include "totalview/tv_data_display.c"

using namespace LvArray;
using namespace scn;

namespace
{

enum { TABLE = sizeof( TV_ttf_data_format_buffer ) };

SIM_NOINSTR bool flip() { return sim::chance( 1, 2 ); }

template< typename T > std::string typeName()
{
  int status = 0;
  char * const d = abi::__cxa_demangle( typeid( T ).name(), nullptr, nullptr, &status );
  std::string const r = d ? d : typeid( T ).name();
  std::free( d );
  return r;
}

struct Row
{
  std::string name, type;
  std::size_t at;
  std::string text() const { char hex[ 32 ]; std::snprintf( hex, sizeof( hex ), "0x%zx", at ); return name + "\t" + type + "\t" + hex + "\n"; }
  bool operator==( Row const & o ) const { return name == o.name && type == o.type && at == o.at; }
};

Row row( std::string const & name, std::string const & type, void const * const at ) { return { name, type, std::size_t( at ) }; }

/// What the debugger reads when a table is complete.
std::vector< Row > readTable()
{
  std::vector< Row > rows;
  void const * const end = std::memchr( TV_ttf_data_format_buffer, 0, TABLE );
  SIM_CHECK( end != nullptr, "table-overrun", "the table has no end" );
  char const * s = TV_ttf_data_format_buffer;
  while( *s )
  {
    Row r;
    char const * const tab1 = std::strchr( s, '\t' );
    char const * const tab2 = tab1 ? std::strchr( tab1 + 1, '\t' ) : nullptr;
    char const * const nl = std::strchr( s, '\n' );
    SIM_CHECK( nl != nullptr && tab1 != nullptr && tab2 != nullptr && tab2 < nl, "broken-row", "the table has the row '%.60s'", s );
    r.name.assign( s, tab1 );
    r.type.assign( tab1 + 1, tab2 );
    std::string const value( tab2 + 1, nl );
    char * stop = nullptr;
    r.at = std::strtoull( value.c_str(), &stop, 16 );
    SIM_CHECK( value.compare( 0, 2, "0x" ) == 0 && *stop == 0 && value.size() > 2, "broken-row", "the address of '%s' is '%s'", r.name.c_str(), value.c_str() );
    rows.push_back( r );
    s = nl + 1;
  }
  return rows;
}

// ------------------------------------------------------------------ a session of the debugger
struct Session
{
  bool open = false;
  std::vector< Row > rows;       // what the table has to show
  std::size_t used = 0;

  void start()
  {
    TV_ttf_pre_display_callback();
    open = true;
    rows.clear();
    used = 0;
  }
  void stop()
  {
    TV_ttf_post_display_callback();
    open = false;
  }
  std::size_t room() const { return TABLE - used; }

  /// The rows at the end of the table are those of expected (in any order) that had room.
  void added( std::vector< Row > const & expected, int const status, char const * const what )
  {
    if( !open )
    {
      SIM_CHECK( status != TV_ttf_format_ok, "wrong-status", "showing %s without a table is said to have worked", what );
      return;
    }
    if( expected.empty() && rows.empty() ) return;             // the table is not begun
    std::vector< Row > const now = readTable();
    SIM_CHECK( now.size() >= rows.size(), "wrong-table", "rows of the table are gone" );
    for( std::size_t i = 0; i < rows.size(); ++i ) SIM_CHECK( now[ i ] == rows[ i ], "wrong-table", "the row '%s' became '%s'", rows[ i ].name.c_str(), now[ i ].name.c_str() );
    std::vector< bool > seen( expected.size() );
    for( std::size_t i = rows.size(); i < now.size(); ++i )
    {
      std::size_t k = 0;
      while( k < expected.size() && ( seen[ k ] || !( expected[ k ] == now[ i ] ) ) ) ++k;
      if( k == expected.size() )
      { // say what is wrong about it
        for( Row const & e : expected )
          if( e.name == now[ i ].name )
          {
            SIM_CHECK( e.type == now[ i ].type, "wrong-type", "%s of %s is a '%s' instead of '%s'", e.name.c_str(), what, now[ i ].type.c_str(), e.type.c_str() );
            SIM_CHECK( e.at == now[ i ].at, "wrong-address", "%s of %s is shown at 0x%zx instead of 0x%zx", e.name.c_str(), what, now[ i ].at, e.at );
          }
        SIM_CHECK( false, "wrong-table", "showing %s adds the row '%s'", what, now[ i ].name.c_str() );
      }
      seen[ k ] = true;
      used += now[ i ].text().size();
    }
    rows = now;
    bool all = true;
    for( std::size_t k = 0; k < expected.size(); ++k )
    {
      if( seen[ k ] ) continue;
      all = false;
      SIM_CHECK( expected[ k ].text().size() + 1 > room(), "missing-row", "the row '%s' of %s is missing, there is room for %zu characters", expected[ k ].name.c_str(), what, room() );
      sim::fault_fired( "table-full" );
    }
    SIM_CHECK( ( status == TV_ttf_format_ok ) == all, "wrong-status", "showing %s %s, the status is %d", what, all ? "worked" : "did not work", status );
    sim::probe( "nontrivial" );
  }
};

Session session;

// ------------------------------------------------------------------ stopping in the middle of an operation
struct Shown { virtual void show() = 0; virtual ~Shown() {} };
Shown * current = nullptr;       // what the debugger looks at when it stops the program
bool stopped = false;

void breakpoint()
{
  if( current == nullptr || stopped || !sim::chance( 1, 24 ) ) return;
  stopped = true;
  bool const had = session.open;
  if( !had ) session.start();
  current->show();
  if( !had ) session.stop();
  stopped = false;
  sim::probe( "stopped-in-operation" );
}

/// An element whose special functions are places to stop at.
struct Spy
{
  int v;
  Spy( int const x=0 ): v( x ) { breakpoint(); }
  Spy( Spy const & o ): v( o.v ) { breakpoint(); }
  Spy( Spy && o ): v( o.v ) { breakpoint(); }
  Spy & operator=( Spy const & o ) { v = o.v; breakpoint(); return *this; }
  Spy & operator=( Spy && o ) { v = o.v; breakpoint(); return *this; }
  ~Spy() { breakpoint(); }
  bool operator==( Spy const & o ) const { return v == o.v; }
};

// ------------------------------------------------------------------ arrays and slices
template< typename A >
std::vector< Row > expectedRows( A const & a )
{
  std::string const dim = typeName< typename A::IndexType >() + "[" + std::to_string( A::NDIM ) + "]";
  return { row( "m_dims", dim, a.dims() ), row( "m_strides", dim, a.strides() ), row( "m_dataBuffer", typeName< std::decay_t< decltype( a.dataBuffer() ) > >(), &a.dataBuffer() ) };
}

/// What the debugger finds where the rows point to.
template< typename A >
void follow( A const & a )
{
  using IT = std::remove_const_t< typename A::IndexType >;
  for( Row const & r : session.rows )
  {
    if( r.name == "m_dims" && r.at == std::size_t( a.dims() ) )
      for( int d = 0; d < A::NDIM; ++d ) SIM_CHECK( reinterpret_cast< IT const * >( r.at )[ d ] == a.size( d ), "wrong-value", "the length in dimension %d is shown as %lld", d, (long long) reinterpret_cast< IT const * >( r.at )[ d ] );
    if( r.name == "m_singleParameterResizeIndex" )
    {
      SIM_CHECK( r.type == "int", "wrong-type", "%s is a '%s'", r.name.c_str(), r.type.c_str() );
    }
  }
}

/// Show an array or a view.
template< typename A >
void showArray( A const & a, char const * const what )
{
  std::vector< Row > expected = expectedRows( a );
  int const status = A::TV_ttf_display_type( &a );
  // The dimension a resize changes is a member without an accessor to its address: it is where the row says if it has the value.
  if( session.open )
  {
    std::vector< Row > const now = readTable();
    bool found = false;
    for( std::size_t i = session.rows.size(); i < now.size(); ++i )
      if( now[ i ].name == "m_singleParameterResizeIndex" )
      {
        std::size_t const from = std::size_t( &a );
        SIM_CHECK( now[ i ].at >= from && now[ i ].at + sizeof( int ) <= from + sizeof( A ) && now[ i ].at % sizeof( int ) == 0, "wrong-address", "%s of %s is not in the object", now[ i ].name.c_str(), what );
        int const v = *reinterpret_cast< int const * >( now[ i ].at );
        SIM_CHECK( v == a.getSingleParameterResizeIndex(), "wrong-value", "%s of %s is shown as %d instead of %d", now[ i ].name.c_str(), what, v, int( a.getSingleParameterResizeIndex() ) );
        expected.push_back( row( "m_singleParameterResizeIndex", "int", reinterpret_cast< void const * >( now[ i ].at ) ) );
        found = true;
      }
    if( !found ) expected.push_back( row( "m_singleParameterResizeIndex", "int", &a ) );
  }
  session.added( expected, status, what );
  if( session.open ) follow( a );
}

#if defined( LVARRAY_BOUNDS_CHECK )
/// A slice of the array with the lengths dims and strides, its first value is at "at".
template< typename T, int N, int U, typename IT >
void showSlice( ArraySlice< T, N, U, IT > const & s, T * const at, IT const * const dims, IT const * const strides )
{
  using S = ArraySlice< T, N, U, IT >;
  std::string const type = typeName< T >();
  std::string shape = type;
  for( int d = 0; d < N; ++d ) shape += "[" + std::to_string( dims[ d ] ) + "]";
  std::string const dim = typeName< IT >() + "[" + std::to_string( N ) + "]";
  std::vector< Row > const expected = { row( "tv(m_data)", shape, at ), row( "m_data", type + "[" + std::to_string( dims[ 0 ] ) + "]", at ), row( "m_dims", dim, dims ), row( "m_strides", dim, strides ) };
  int const status = S::TV_ttf_display_type( &s );
  session.added( expected, status, "a slice" );
  sim::probe( "slice" );
}
#endif

template< typename A >
struct ArrayShown : Shown
{
  A const & a;
  explicit ArrayShown( A const & x ): a( x ) {}
  void show() override { showArray( a, "an array in the middle of an operation" ); }
};

// ------------------------------------------------------------------ the user's own rows
std::string pickText( bool & bad )
{
  std::string s;
  std::size_t n = sim::draw( 12 );
  if( sim::chance( 1, 8 ) ) n = sim::draw( 3000 );
  if( sim::chance( 1, 6 ) && session.room() < 400 ) n = sim::draw( 400 );
  for( std::size_t i = 0; i < n; ++i ) s += char( 'a' + ( i * 7 ) % 26 );
  if( sim::chance( 1, 12 ) ) { s.insert( sim::draw( std::uint32_t( n + 1 ) ), 1, flip() ? '\t' : '\n' ); bad = true; }
  return s;
}

void ownRow()
{
  bool bad = false;
  Row r;
  r.name = pickText( bad );
  r.type = pickText( bad );
  r.at = 0;
  for( std::uint32_t i = sim::draw( 5 ); i-- > 0; ) r.at = ( r.at << 16 ) | ( flip() ? sim::draw( 65536 ) : sim::draw( 3 ) * 0x7fff );
  if( flip() ) r.at >>= sim::draw( 33 );
  std::size_t const need = r.text().size();
  if( session.open && !bad && session.room() > 24 && session.room() < 3000 && flip() )
  { // leave little room, or too little
    std::size_t const want = session.room() + sim::draw( 3 ) - 2;      // with the end of the table: too long by one, exact, short by one
    if( need < want ) r.type += std::string( want - need, 'z' );
    sim::probe( "exactly-full" );
  }
  std::string const text = r.text();
  int const got = TV_ttf_add_row( r.name.c_str(), r.type.c_str(), reinterpret_cast< void const * >( r.at ) );
  sim::log( "a row with %zu characters, %zu are free: %d", text.size(), session.room(), got );
  if( !session.open ) { SIM_CHECK( got == TV_ttf_ec_not_active, "wrong-status", "a row without a table gives %d", got ); return; }
  if( bad ) { SIM_CHECK( got == TV_ttf_ec_invalid_characters, "wrong-status", "a row with a tab or a line break in a name gives %d", got ); sim::probe( "invalid" ); session.added( {}, TV_ttf_format_ok, "nothing" ); return; }
  bool const fits = text.size() + 1 <= session.room();
  SIM_CHECK( got == ( fits ? TV_ttf_ec_ok : TV_ttf_ec_buffer_exhausted ), "wrong-status", "a row of %zu characters gives %d, %zu are free", text.size(), got, session.room() );
  session.added( { r }, got == TV_ttf_ec_ok ? TV_ttf_format_ok : TV_ttf_format_failed, "a row" );
}

// ------------------------------------------------------------------ histories
template< typename T > struct Name;

template< typename A >
void changeArray( A & a )
{
  using IT = std::remove_const_t< typename A::IndexType >;
  switch( sim::draw( 6 ) )
  {
    case 5:
      if( A::NDIM == 1 && std::is_arithmetic< std::remove_const_t< typename A::ValueType > >::value )
      { a.resize( IT( sim::draw( 3000 ) ) ); break; }
      // fall through
    case 0: { IT dims[ A::NDIM ]; for( IT & d : dims ) d = IT( sim::draw( 6 ) ); a.resize( A::NDIM, dims ); break; }
    case 1: a.setSingleParameterResizeIndex( int( sim::draw( A::NDIM ) ) ); break;
    case 2: a.resize( IT( sim::draw( 7 ) ) ); break;
    case 3: { A copy( a ); if( flip() ) a = copy; else a = std::move( copy ); break; }
    default: a.reserve( IT( sim::draw( 30 ) ) );
  }
}

#if defined( LVARRAY_BOUNDS_CHECK )
template< typename T, int U, typename IT >
void showSlices( ArraySlice< T, 1, U, IT > const & s, T * const at, IT const * const dims, IT const * const strides )
{
  showSlice( s, at, dims, strides );
  if( flip() ) showSlice( s.toSliceConst(), static_cast< T const * >( at ), dims, strides );
}
template< typename T, int N, int U, typename IT >
void showSlices( ArraySlice< T, N, U, IT > const & s, T * const at, IT const * const dims, IT const * const strides )
{
  showSlice( s, at, dims, strides );
  if( dims[ 0 ] > 0 && flip() )
  {
    IT const i = IT( sim::draw( std::uint32_t( dims[ 0 ] ) ) );
    showSlices( s[ i ], at + i * strides[ 0 ], dims + 1, strides + 1 );
  }
}
#endif

template< typename A >
void runWith()
{
  A a, b;
  ArrayShown< A > shown( a );
  for( int n = 0; n < 60 && sim::more( 30 ); ++n )
  {
    sim::Span span;
    switch( sim::draw( session.open ? 17 : 8 ) / ( session.open ? 2 : 1 ) )
    {
      case 8: case 0:
        sim::log( session.open ? "the table is read" : "the debugger opens a table" );
        if( session.open && flip() ) session.stop();
        else
        {
          session.start();                         // maybe a new one before the last was closed
          if( sim::chance( 1, 3 ) )
          { // something large was shown before
            Row const large = row( "large", std::string( TABLE - 20 - sim::draw( 900 ), 't' ), &a );
            int const got = TV_ttf_add_row( large.name.c_str(), large.type.c_str(), &a );
            session.added( { large }, got, "a large object" );
            sim::probe( "large" );
          }
        }
        break;
      case 1: sim::log( "the debugger shows an array" ); showArray( flip() ? a : b, "an array" ); sim::probe( session.open ? "array" : "closed" ); break;
      case 2:
        sim::log( "the debugger shows a view" );
        if( flip() ) { auto const v = a.toView(); showArray( v, "a view" ); }
        else { auto const v = a.toViewConst(); showArray( v, "a constant view" ); }
        break;
      case 3: case 4:
        sim::log( "the array is changed" );
        if( sim::chance( 2, 3 ) ) current = &shown;
        changeArray( a );
        current = nullptr;
        if( session.open ) session.added( {}, TV_ttf_format_ok, "nothing" );
        break;
#if defined( LVARRAY_BOUNDS_CHECK )
      case 5: if( a.size( 0 ) > 0 ) { sim::log( "the debugger shows a slice" ); showSlices( a.toSlice(), a.data(), a.dims(), a.strides() ); } break;
#endif
      case 6:
      {
        sim::log( "nothing is shown" );
        int const got = A::TV_ttf_display_type( nullptr );
        SIM_CHECK( got == TV_ttf_format_ok, "wrong-status", "showing no array gives %d", got );
        if( session.open ) session.added( {}, TV_ttf_format_ok, "nothing" );
        break;
      }
      default: for( std::uint32_t k = 1 + sim::draw( 6 ); k-- > 0; ) ownRow();
    }
  }
  if( session.open ) session.stop();
  SIM_CHECK( TV_ttf_add_row( "x", "y", nullptr ) == TV_ttf_ec_not_active, "wrong-status", "a closed table takes rows" );
}

} // namespace

void scenarioWarmup() {}

void scenario()
{
  LeakCheck leaks;
  session = Session{};
  current = nullptr;
  stopped = false;
  switch( sim::draw( 6 ) )
  {
    case 0: runWith< Array< double, 1, RAJA::PERM_I, std::ptrdiff_t, MallocBuffer > >(); break;
    case 1: runWith< Array< int, 2, RAJA::PERM_JI, int, MallocBuffer > >(); break;
    case 2: runWith< Array< Spy, 2, RAJA::PERM_IJ, long long, MallocBuffer > >(); break;
    case 3: runWith< Array< Spy, 1, RAJA::PERM_I, int, MallocBuffer > >(); break;
    case 4: runWith< Array< float, 3, RAJA::PERM_KJI, std::ptrdiff_t, MallocBuffer > >(); break;
    default: runWith< Array< Array< Spy, 1, RAJA::PERM_I, int, MallocBuffer >, 1, RAJA::PERM_I, int, MallocBuffer > >(); break;
  }
  session = Session{};
  leaks.check( "everything was destroyed" );
}
