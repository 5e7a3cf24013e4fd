// C25: every transfer between memory spaces is announced with its size, its target, the type and the name.
// Containers of all kinds are named, grown, copied, moved, exchanged and used in both spaces. The stand-in of the array
// manager records the transfers; the text written to standard output in between has to be one line for each of them.
#include "common.hpp"
#include "ChaiBuffer.hpp"

#include <cmath>
#include <cxxabi.h>
#include <iostream>
#include <typeinfo>

using namespace LvArray;
using namespace scn;

namespace
{

template< typename T > using Buf = ChaiBuffer< T >;

enum { HOST = 0, DEVICE = 1 };
using device_exec = RAJA::cuda_exec< 32 >;

SIM_NOINSTR bool flip() { return sim::chance( 1, 2 ); }
char const * nameOf( int const s ) { return s == HOST ? "host" : "device"; }
MemorySpace toSpace( int const s ) { return s == HOST ? MemorySpace::host : MemorySpace::cuda; }

// ------------------------------------------------------------------ standard output
struct Out : std::streambuf
{
  char text[ 1 << 15 ];
  std::size_t n = 0;
  bool broken = false;         // takes nothing
  SIM_NOINSTR int overflow( int const c ) override
  {
    if( broken ) { sim::fault_fired( "output-refused" ); return EOF; }
    if( c != EOF && n < sizeof( text ) ) text[ n++ ] = char( c );
    return c == EOF ? 0 : c;
  }
  SIM_NOINSTR std::streamsize xsputn( char const * const s, std::streamsize const k ) override
  {
    if( broken ) { sim::fault_fired( "output-refused" ); return 0; }
    for( std::streamsize i = 0; i < k && n < sizeof( text ); ++i ) text[ n++ ] = s[ i ];
    return k;
  }
} out;

chai::ArrayManager & manager() { return *chai::ArrayManager::getInstance(); }

template< typename C > std::string typeName()
{
  int status = 0;
  char * const d = abi::__cxa_demangle( typeid( C ).name(), nullptr, nullptr, &status );
  std::string const r = d ? d : typeid( C ).name();
  std::free( d );
  return r;
}

/// How a number of bytes is written.
std::string sizeText( std::size_t const bytes )
{
  static char const * const UNITS[] = { "KB", "MB", "GB" };
  int unit = 0;
  double v = double( bytes ) / 1024.0;
  if( bytes >= ( std::size_t( 1 ) << 20 ) ) { unit = 1; v = double( bytes ) / 1048576.0; }
  if( bytes >= ( std::size_t( 1 ) << 30 ) ) { unit = 2; v = double( bytes ) / 1073741824.0; }
  char text[ 64 ];
  std::snprintf( text, sizeof( text ), "%.1f %s", v, UNITS[ unit ] );
  return text;
}

std::string pickName()
{
  switch( sim::draw( 7 ) )
  {
    case 0: return "";
    case 1: return "p";
    case 2: return "pressure";
    case 3: return "mesh/nodes";
    case 4: return "two words";
    case 5: return "a name that is longer than any buffer in a string object, number " + std::to_string( sim::draw( 100 ) );
    default: return "field" + std::to_string( sim::draw( 5 ) );
  }
}

// ------------------------------------------------------------------ the containers
/// A buffer of a container: where it is and how many bytes it has (0: not known here).
struct Part { void const * at; std::size_t bytes; };
char const * partSuffix( std::size_t const part ) { static char const * const NAMES[] = { "/m_values", "/m_sizes", "/m_offsets", "/entries" }; return NAMES[ part ]; }

template< typename T >
struct ArrayKind
{
  using C = Array< T, 1, RAJA::PERM_I, I, Buf >;
  static char const * suffix( std::size_t ) { return ""; }
  static void parts( C const & a, std::vector< Part > & p ) { p.push_back( { a.data(), std::size_t( a.capacity() ) * sizeof( T ) } ); }
  static C make( int const how ) { return how ? C( I( sim::draw( 4 ) ) ) : C(); }
  static void change( C & a )
  {
    switch( sim::draw( 6 ) )
    {
      case 0: a.resize( I( sim::draw( 12 ) ) ); break;
      case 1: a.reserve( I( sim::draw( 40 ) ) ); break;
      case 2: if( sim::chance( 1, 16 ) ) { a.resize( 120000 + I( sim::draw( 60000 ) ) ); sim::probe( "large" ); } break;
      case 3: if( sim::chance( 1, 4 ) ) a.clear(); break;
      default: for( std::uint32_t n = sim::draw( 5 ); n-- > 0; ) a.emplace_back( T( n ) );
    }
  }
  static void use( C & a, int const space, bool const write )
  {
    if( write ) launch( a.toView(), space, []( auto const & v, I const i ) { v[ i ] = T( i ); } );
    else launch( a.toViewConst(), space, []( auto const & v, I const i ) { (void) T( v[ i ] ); } );
  }
  template< typename V, typename F > static void launch( V const & view, int const space, F const f )
  {
    I const n = view.size() < 20 ? view.size() : 20;
    if( space == DEVICE ) RAJA::forall< device_exec >( RAJA::TypedRangeSegment< I >( 0, n ), [view, f]( I const i ) { f( view, i ); } );
    else RAJA::forall< RAJA::loop_exec >( RAJA::TypedRangeSegment< I >( 0, n ), [view, f]( I const i ) { f( view, i ); } );
  }
  static void moveView( C & a, int const space, bool const touch ) { auto const v = a.toView(); v.move( toSpace( space ), touch ); }
};

template< typename T >
struct MatrixKind
{
  using C = Array< T, 2, RAJA::PERM_JI, I, Buf >;
  static char const * suffix( std::size_t ) { return ""; }
  static void parts( C const & a, std::vector< Part > & p ) { p.push_back( { a.data(), std::size_t( a.capacity() ) * sizeof( T ) } ); }
  static C make( int const how ) { return how ? C( I( sim::draw( 4 ) ), I( sim::draw( 4 ) ) ) : C(); }
  static void change( C & a )
  {
    switch( sim::draw( 3 ) )
    {
      case 0: a.resize( I( sim::draw( 6 ) ), I( sim::draw( 6 ) ) ); break;
      case 1: a.template resizeDimension< 1 >( I( sim::draw( 6 ) ) ); break;
      default: a.resize( I( sim::draw( 9 ) ) );
    }
  }
  static void use( C & a, int const space, bool const write )
  {
    if( write ) ArrayKind< T >::launch( a.toView(), space, []( auto const & v, I const i ) { if( i < v.size( 0 ) && v.size( 1 ) > 0 ) v( i, 0 ) = T( i ); } );
    else ArrayKind< T >::launch( a.toViewConst(), space, []( auto const & v, I const i ) { if( i < v.size( 0 ) && v.size( 1 ) > 0 ) (void) T( v( i, 0 ) ); } );
  }
  static void moveView( C & a, int const space, bool const touch ) { auto const v = a.toView(); v.move( toSpace( space ), touch ); }
};

struct SortedKind
{
  using T = int;
  using C = SortedArray< T, I, Buf >;
  static char const * suffix( std::size_t ) { return ""; }
  static void parts( C const & a, std::vector< Part > & p ) { p.push_back( { a.data(), 0 } ); }
  static C make( int ) { return C(); }
  static void change( C & a )
  {
    switch( sim::draw( 4 ) )
    {
      case 0: a.reserve( I( sim::draw( 30 ) ) ); break;
      case 1: if( sim::chance( 1, 3 ) ) a.clear(); break;
      default: for( std::uint32_t n = sim::draw( 6 ); n-- > 0; ) { if( sim::chance( 3, 4 ) ) a.insert( int( sim::draw( 30 ) ) ); else a.remove( int( sim::draw( 30 ) ) ); }
    }
  }
  static void use( C & a, int const space, bool ) { ArrayKind< T >::launch( a.toView(), space, []( auto const & v, I const i ) { (void) T( v[ i ] ); } ); }
  static void moveView( C & a, int const space, bool const touch ) { auto const v = a.toView(); v.move( toSpace( space ), touch ); }
};

struct RaggedKind
{
  using T = double;
  using C = ArrayOfArrays< T, I, Buf >;
  static char const * suffix( std::size_t const part ) { return partSuffix( part ); }
  static void parts( C const & a, std::vector< Part > & p )
  {
    auto const v = a.toViewConst();
    p.push_back( { v.getValues(), std::size_t( v.valueCapacity() ) * sizeof( T ) } );
    p.push_back( { v.getSizes(), 0 } );
    p.push_back( { v.getOffsets(), 0 } );
  }
  static C make( int const how ) { return how ? C( I( sim::draw( 4 ) ), I( sim::draw( 3 ) ) ) : C(); }
  static void change( C & a )
  {
    switch( sim::draw( 5 ) )
    {
      case 0: a.resize( I( sim::draw( 6 ) ), I( sim::draw( 3 ) ) ); break;
      case 1: a.reserveValues( I( sim::draw( 30 ) ) ); break;
      case 2: a.compress(); break;
      case 3: { double const vals[ 3 ] = { 1, 2, 3 }; a.appendArray( vals, vals + sim::draw( 4 ) ); break; }
      default: if( a.size() > 0 ) for( std::uint32_t n = sim::draw( 5 ); n-- > 0; ) a.emplaceBack( I( sim::draw( std::uint32_t( a.size() ) ) ), 4.0 );
    }
  }
  static void use( C & a, int const space, bool const write )
  {
    if( write ) ArrayKind< T >::launch( a.toViewConstSizes(), space, []( auto const & v, I const i ) { if( v.sizeOfArray( i ) > 0 ) v( i, 0 ) = T( i ); } );
    else ArrayKind< T >::launch( a.toViewConst(), space, []( auto const & v, I const i ) { if( v.sizeOfArray( i ) > 0 ) (void) T( v( i, 0 ) ); } );
  }
  static void moveView( C & a, int const space, bool const touch ) { auto const v = a.toView(); v.move( toSpace( space ), touch ); }
};

struct SetsKind
{
  using T = int;
  using C = ArrayOfSets< T, I, Buf >;
  static char const * suffix( std::size_t const part ) { return partSuffix( part ); }
  static void parts( C const & a, std::vector< Part > & p )
  {
    auto const v = a.toViewConst();
    p.push_back( { v.getValues(), std::size_t( v.valueCapacity() ) * sizeof( T ) } );
    p.push_back( { v.getSizes(), 0 } );
    p.push_back( { v.getOffsets(), 0 } );
  }
  static C make( int const how ) { return how ? C( I( sim::draw( 4 ) ), I( sim::draw( 3 ) ) ) : C(); }
  static void change( C & a )
  {
    switch( sim::draw( 4 ) )
    {
      case 0: a.resize( I( sim::draw( 6 ) ), I( sim::draw( 3 ) ) ); break;
      case 1: a.reserveValues( I( sim::draw( 30 ) ) ); break;
      case 2: a.appendSet( I( sim::draw( 4 ) ) ); break;
      default: if( a.size() > 0 ) for( std::uint32_t n = sim::draw( 5 ); n-- > 0; ) a.insertIntoSet( I( sim::draw( std::uint32_t( a.size() ) ) ), int( sim::draw( 9 ) ) );
    }
  }
  static void use( C & a, int const space, bool ) { ArrayKind< T >::launch( a.toViewConst(), space, []( auto const & v, I const i ) { (void) v.contains( i, 3 ); } ); }
  static void moveView( C & a, int const space, bool const touch ) { auto const v = a.toView(); v.move( toSpace( space ), touch ); }
};

struct PatternKind
{
  using T = int;
  using C = SparsityPattern< T, I, Buf >;
  static char const * suffix( std::size_t const part ) { return partSuffix( part ); }
  static void parts( C const & a, std::vector< Part > & p )
  {
    auto const v = a.toViewConst();
    p.push_back( { v.getColumns(), std::size_t( v.nonZeroCapacity() ) * sizeof( T ) } );
    p.push_back( { v.getSizes(), 0 } );
    p.push_back( { v.getOffsets(), 0 } );
  }
  static C make( int const how ) { return how ? C( I( sim::draw( 4 ) ), 9, I( sim::draw( 3 ) ) ) : C(); }
  static void change( C & a )
  {
    switch( sim::draw( 4 ) )
    {
      case 0: a.resize( I( sim::draw( 6 ) ), 9, I( sim::draw( 3 ) ) ); break;
      case 1: a.reserveNonZeros( I( sim::draw( 30 ) ) ); break;
      case 2: a.appendRow( I( sim::draw( 4 ) ) ); break;
      default: if( a.numRows() > 0 && a.numColumns() == 9 ) for( std::uint32_t n = sim::draw( 5 ); n-- > 0; ) a.insertNonZero( I( sim::draw( std::uint32_t( a.numRows() ) ) ), int( sim::draw( 9 ) ) );
    }
  }
  static void use( C & a, int const space, bool )
  {
    I const n = a.numRows();
    auto const v = a.toViewConst();
    auto const f = [v]( I const i ) { (void) v.empty( i, 3 ); };
    if( space == DEVICE ) RAJA::forall< device_exec >( RAJA::TypedRangeSegment< I >( 0, n ), f );
    else RAJA::forall< RAJA::loop_exec >( RAJA::TypedRangeSegment< I >( 0, n ), f );
  }
  static void moveView( C & a, int const space, bool const touch ) { auto const v = a.toView(); v.move( toSpace( space ), touch ); }
};

struct SparseKind
{
  using T = double;
  using C = CRSMatrix< T, int, I, Buf >;
  static char const * suffix( std::size_t const part ) { return partSuffix( part ); }
  static void parts( C const & a, std::vector< Part > & p )
  {
    auto const v = a.toViewConst();
    p.push_back( { v.getColumns(), std::size_t( v.nonZeroCapacity() ) * sizeof( int ) } );
    p.push_back( { v.getSizes(), 0 } );
    p.push_back( { v.getOffsets(), 0 } );
    p.push_back( { v.getEntries(), 0 } );
  }
  static C make( int const how ) { return how ? C( I( sim::draw( 4 ) ), 9, I( sim::draw( 3 ) ) ) : C(); }
  static void change( C & a )
  {
    switch( sim::draw( 4 ) )
    {
      case 0: a.resize( I( sim::draw( 6 ) ), 9, I( sim::draw( 3 ) ) ); break;
      case 1: a.reserveNonZeros( I( sim::draw( 30 ) ) ); break;
      case 2: a.compress(); break;
      default: if( a.numRows() > 0 && a.numColumns() == 9 ) for( std::uint32_t n = sim::draw( 5 ); n-- > 0; ) a.insertNonZero( I( sim::draw( std::uint32_t( a.numRows() ) ) ), int( sim::draw( 9 ) ), 1.0 );
    }
  }
  static void use( C & a, int const space, bool const write )
  {
    I const n = a.numRows();
    auto const go = [space, n]( auto const & f )
    {
      if( space == DEVICE ) RAJA::forall< device_exec >( RAJA::TypedRangeSegment< I >( 0, n ), f );
      else RAJA::forall< RAJA::loop_exec >( RAJA::TypedRangeSegment< I >( 0, n ), f );
    };
    if( write ) { auto const v = a.toViewConstSizes(); go( [v]( I const i ) { if( v.numNonZeros( i ) > 0 ) v.getEntries( i )[ 0 ] = 2.0; } ); }
    else { auto const v = a.toViewConst(); go( [v]( I const i ) { if( v.numNonZeros( i ) > 0 ) (void) double( v.getEntries( i )[ 0 ] ); } ); }
  }
  static void moveView( C & a, int const space, bool const touch ) { auto const v = a.toView(); v.move( toSpace( space ), touch ); }
};

// ------------------------------------------------------------------ a container and its name
template< typename K >
struct Named
{
  using C = typename K::C;
  int id = 0;
  C a;
  std::string name;
  bool known = true;           // otherwise the name (and type) was never set, nothing is known

  Named(): a( K::make( 1 ) ) {}
  bool knows( std::size_t ) const { return known; }
  std::string label( std::size_t const part ) const { return typeName< C >() + " " + name + K::suffix( part ); }
};

void split( std::string const & s, std::vector< std::string > & lines )
{
  std::size_t at = 0;
  while( at < s.size() )
  {
    std::size_t const end = s.find( '\n', at );
    SIM_CHECK( end != std::string::npos, "line-not-ended", "the text '%.80s' is not a line", s.c_str() + at );
    lines.push_back( s.substr( at, end - at ) );
    at = end + 1;
  }
}

std::string word( std::string const & s, std::size_t & at )
{
  while( at < s.size() && s[ at ] == ' ' ) ++at;
  std::size_t const from = at;
  while( at < s.size() && s[ at ] != ' ' ) ++at;
  return s.substr( from, at - from );
}

/// Compare what was written since the last call with the transfers that were made for b.
template< typename K, typename B >
void compare( B & b, std::vector< Part > const & before )
{
  std::vector< std::string > lines;
  split( std::string( out.text, out.n ), lines );
  out.n = 0;
  std::size_t const n = manager().logged();
  if( out.broken || !std::cout.good() )
  {
    SIM_CHECK( lines.empty(), "line-without-stream", "a stream that failed got '%s'", lines[ 0 ].c_str() );
    return;
  }
  SIM_CHECK( lines.size() == n, "wrong-announcements", "%zu lines for %zu transfers%s%s", lines.size(), n, lines.empty() ? "" : ", the first is ", lines.empty() ? "" : lines[ 0 ].c_str() );
  std::vector< Part > after;
  K::parts( b.a, after );
  for( std::size_t i = 0; i < n; ++i )
  {
    chai::ArrayManager::Transfer const & t = manager().logged( i );
    std::string const & l = lines[ i ];
    std::size_t at = 0;
    std::string const moved = word( l, at );
    std::string const number = word( l, at ), unit = word( l, at );
    std::string const size = number + " " + unit;
    SIM_CHECK( moved == "Moved" && size == sizeText( t.bytes ), "wrong-size", "%zu bytes are announced as '%s'", t.bytes, l.c_str() );
    std::string const to = word( l, at ), the = word( l, at );
    std::string const target = t.to == chai::CPU ? "HOST" : "DEVICE";
    std::string space = word( l, at );
    bool colon = !space.empty() && space.back() == ':';
    if( colon ) space.pop_back();
    else colon = word( l, at ) == ":";
    SIM_CHECK( to == "to" && the == "the" && colon && space == target, "wrong-space", "a transfer to %s is announced as '%s'", target.c_str(), l.c_str() );
    // Which buffer is it?
    std::size_t part = before.size();
    for( std::size_t k = 0; k < before.size(); ++k )
      for( std::vector< Part > const * const v : { &before, static_cast< std::vector< Part > const * >( &after ) } )
        if( ( *v )[ k ].at != nullptr && ( ( *v )[ k ].at == t.src || ( *v )[ k ].at == t.dst ) ) part = k;
    SIM_CHECK( part < before.size(), "foreign-transfer", "a buffer was transferred that does not belong to the container used" );
    SIM_CHECK( before[ part ].bytes == 0 || before[ part ].bytes == t.bytes, "wrong-bytes", "%zu bytes are transferred of a buffer with %zu", t.bytes, before[ part ].bytes );
    if( !b.knows( part ) ) continue;
    std::size_t const from = l.find_first_not_of( ' ', at );
    std::string rest = from == std::string::npos ? "" : l.substr( from );
    std::string label = b.label( part );
    SIM_CHECK( rest == label, "wrong-name", "a transfer of '%s' is announced as '%s'", label.c_str(), rest.c_str() );
    sim::probe( "nontrivial" );
    if( label.back() != ' ' ) sim::probe( "named" );
    if( t.bytes >> 20 ) sim::probe( "megabytes" );
    if( part > 0 ) sim::probe( "composed" );
  }
}

template< typename K >
void home( Named< K > & b ) { b.a.move( MemorySpace::host, true ); }

template< typename K >
void runWith()
{
  using C = typename K::C;
  Named< K > boxes[ 2 ];
  boxes[ 1 ].id = 1;
  for( int n = 0; n < 40 && sim::more( 22 ); ++n )
  {
    sim::Span span;
    Named< K > & b = boxes[ sim::chance( 1, 3 ) ];
    Named< K > & o = boxes[ 1 - b.id ];
    if( sim::chance( 1, 12 ) )
    {
      sim::log( "standard output %s", out.broken ? "works again" : "fails" );
      out.broken = !out.broken;
      std::cout.clear();
    }
    std::vector< Part > before;
    out.n = 0;
    switch( sim::draw( 11 ) )
    {
      case 0: case 1:
      {
        b.name = pickName();
        sim::log( "box %d is named '%s'", b.id, b.name.c_str() );
        manager().startLog();
        b.a.setName( std::string( b.name ) );
        b.known = true;
        K::parts( b.a, before );
        compare< K >( b, before );
        break;
      }
      case 2: case 3: case 4:
      {
        int const s = int( sim::draw( 2 ) );
        bool const touch = flip();
        sim::log( "box %d moves to the %s%s", b.id, nameOf( s ), touch ? "" : " untouched" );
        K::parts( b.a, before );
        manager().startLog();
        b.a.move( toSpace( s ), touch );
        compare< K >( b, before );
        break;
      }
      case 5: case 6:
      {
        int const s = int( sim::draw( 2 ) );
        bool const write = flip();
        sim::log( "kernel on the %s %s box %d", nameOf( s ), write ? "changes" : "reads", b.id );
        K::parts( b.a, before );
        manager().startLog();
        K::use( b.a, s, write );
        compare< K >( b, before );
        break;
      }
      case 7:
      {
        int const s = int( sim::draw( 2 ) );
        sim::log( "a view of box %d moves to the %s", b.id, nameOf( s ) );
        K::parts( b.a, before );
        manager().startLog();
        K::moveView( b.a, s, flip() );
        compare< K >( b, before );
        break;
      }
      case 8: case 9:
      {
        K::parts( b.a, before );
        manager().startLog();
        home( b );
        compare< K >( b, before );
        sim::log( "box %d is changed", b.id );
        manager().startLog();
        K::change( b.a );
        SIM_CHECK( manager().logged() == 0 && out.n == 0, "needless-transfer", "host code that changes a container on the host transfers something" );
        break;
      }
      default:
      {
        K::parts( b.a, before );
        manager().startLog();
        home( b );
        compare< K >( b, before );
        before.clear();
        K::parts( o.a, before );
        manager().startLog();
        home( o );
        compare< K >( o, before );
        manager().startLog();
        out.n = 0;
        switch( sim::draw( 5 ) )
        {
          case 0: sim::log( "box %d = box %d", b.id, o.id ); b.a = o.a; break; // the name stays
          case 1:
          {
            sim::log( "box %d = copy of box %d", b.id, o.id );
            C copy( o.a );
            b.a = std::move( copy );
            b.known = false;
            break;
          }
          case 2:
          {
            sim::log( "box %d = move( box %d )", b.id, o.id );
            b.a = std::move( o.a );
            b.name = o.name;
            b.known = o.known;
            o.a = K::make( 1 );
            o.name.clear();
            o.known = true;
            break;
          }
          case 3:
            sim::log( "swap( box %d, box %d )", b.id, o.id );
            std::swap( b.a, o.a );
            std::swap( b.name, o.name );
            std::swap( b.known, o.known );
            break;
          default:
            sim::log( "box %d is made anew", b.id );
            b.a.~C();
            new ( &b.a ) C( K::make( int( sim::draw( 2 ) ) ) );
            b.name.clear();
            b.known = true;
        }
        SIM_CHECK( manager().logged() == 0 && out.n == 0, "needless-transfer", "an exchange on the host transfers something" );
        sim::probe( "exchanged" );
      }
    }
  }
}

/// Arrays in an array: each has its own name.
void runNested()
{
  using Inner = Array< int, 1, RAJA::PERM_I, I, Buf >;
  using Outer = Array< Inner, 1, RAJA::PERM_I, I, Buf >;
  struct K
  {
    using C = Outer;
    static void parts( C const & c, std::vector< Part > & p )
    {
      p.push_back( { c.data(), std::size_t( c.capacity() ) * sizeof( Inner ) } );
      for( I i = 0; i < c.size(); ++i )
      { // wherever the outer array is, look at its bytes
        alignas( Inner ) char bytes[ sizeof( Inner ) ];
        sim::rawCopy( bytes, c.data() + i, sizeof( Inner ) );
        Inner const & inner = *reinterpret_cast< Inner const * >( bytes );
        p.push_back( { inner.data(), std::size_t( inner.capacity() ) * sizeof( int ) } );
      }
    }
  };
  struct Box
  {
    Outer a;
    std::string name;
    struct Row { std::string name; bool known; };
    std::vector< Row > rows;
    bool knows( std::size_t const part ) const { return part == 0 || rows[ part - 1 ].known; }
    std::string label( std::size_t const part ) const { return part == 0 ? typeName< Outer >() + " " + name : typeName< Inner >() + " " + rows[ part - 1 ].name; }
  } b;
  for( int n = 0; n < 40 && sim::more( 22 ); ++n )
  {
    sim::Span span;
    std::vector< Part > before;
    K::parts( b.a, before );
    out.n = 0;
    manager().startLog();
    std::uint32_t const what = sim::draw( 10 );
    if( what >= 4 )
    { // on the host
      b.a.move( MemorySpace::host, true );
      compare< K >( b, before );
      manager().startLog();
    }
    bool const any = b.a.size() > 0;
    I const i = any ? I( sim::draw( std::uint32_t( b.a.size() ) ) ) : 0;
    switch( what )
    {
      case 0: case 1:
      {
        int const s = int( sim::draw( 2 ) );
        sim::log( "all of it moves to the %s", nameOf( s ) );
        b.a.move( toSpace( s ), flip() );
        compare< K >( b, before );
        continue;
      }
      case 2: case 3:
      {
        int const s = int( sim::draw( 2 ) );
        bool const write = flip();
        sim::log( "kernel on the %s %s it", nameOf( s ), write ? "changes" : "reads" );
        if( write ) ArrayKind< int >::launch( b.a.toNestedView(), s, []( auto const & v, I const k ) { if( v[ k ].size() > 0 ) v[ k ][ 0 ] = int( k ); } );
        else ArrayKind< int >::launch( b.a.toNestedViewConst(), s, []( auto const & v, I const k ) { if( v[ k ].size() > 0 ) (void) int( v[ k ][ 0 ] ); } );
        compare< K >( b, before );
        continue;
      }
      case 4:
        b.name = pickName();
        sim::log( "the outer array is named '%s'", b.name.c_str() );
        b.a.setName( std::string( b.name ) );
        break;
      case 5: case 6:
        if( !any ) break;
        b.rows[ std::size_t( i ) ] = { pickName(), true };
        sim::log( "row %d is named '%s'", int( i ), b.rows[ std::size_t( i ) ].name.c_str() );
        b.a[ i ].setName( std::string( b.rows[ std::size_t( i ) ].name ) );
        break;
      case 7:
        if( !any ) break;
        sim::log( "row %d grows", int( i ) );
        for( std::uint32_t k = 1 + sim::draw( 5 ); k-- > 0; ) b.a[ i ].emplace_back( int( k ) );
        break;
      case 8:
        if( b.a.size() < 5 )
        {
          sim::log( "a new row" );
          if( flip() ) { b.a.emplace_back( I( sim::draw( 4 ) ) ); b.rows.push_back( { "", true } ); }
          else
          {
            b.a.emplace( i, I( sim::draw( 4 ) ) );
            b.rows.insert( b.rows.begin() + i, { "", true } );
          }
          break;
        }
        // fall through
      default:
        if( !any ) break;
        sim::log( "row %d is erased", int( i ) );
        b.a.erase( i );
        b.rows.erase( b.rows.begin() + i );
    }
    SIM_CHECK( manager().logged() == 0 && out.n == 0, "needless-transfer", "host code that changes arrays on the host transfers something" );
    sim::probe( "nested" );
  }
}

/// A buffer that does not belong to a container.
void runBuffer()
{
  struct K { using C = Buf< int >; static char const * suffix( std::size_t ) { return ""; } static void parts( C const & c, std::vector< Part > & p ) { p.push_back( { c.data(), std::size_t( c.capacity() ) * sizeof( int ) } ); } };
  struct Box
  {
    Buf< int > a;
    std::string name;
    bool other = false;        // named with another type
    Box(): a( true ) {}
    bool knows( std::size_t ) const { return true; }
    std::string label( std::size_t ) const { return ( other ? typeName< std::vector< float > >() : typeName< Buf< int > >() ) + " " + name; }
  } b;
  for( int n = 0; n < 30 && sim::more( 16 ); ++n )
  {
    sim::Span span;
    std::vector< Part > before;
    K::parts( b.a, before );
    out.n = 0;
    manager().startLog();
    switch( sim::draw( 4 ) )
    {
      case 0:
        b.name = pickName();
        sim::log( "the buffer is named '%s'", b.name.c_str() );
        b.other = flip();
        if( b.other ) b.a.setName< std::vector< float > >( std::string( b.name ) );
        else b.a.setName( std::string( b.name ) );
        break;
      case 1:
      {
        std::size_t const c = sim::draw( 9 );
        sim::log( "the buffer gets capacity %zu", c );
        b.a.reallocate( 0, MemorySpace::host, std::ptrdiff_t( c ) );
        before.clear();
        K::parts( b.a, before );
        break;
      }
      case 2: { sim::log( "a copy of the buffer moves" ); Buf< int > const copy( b.a ); copy.move( toSpace( int( sim::draw( 2 ) ) ), flip() ); break; }
      default: sim::log( "the buffer moves" ); b.a.move( toSpace( int( sim::draw( 2 ) ) ), flip() );
    }
    compare< K >( b, before );
  }
  b.a.free();
}

/// The text for a number of bytes.
void sizes()
{
  for( int n = 0; n < 30; ++n )
  {
    std::size_t const bytes = ( std::size_t( 1 ) << sim::draw( 43 ) ) + sim::draw( 3 ) * sim::draw( 100000 ) - ( flip() ? 1 : 0 );
    std::string const got = system::calculateSize( bytes );
    SIM_CHECK( got == sizeText( bytes ), "wrong-size", "%zu bytes are written as %s", bytes, got.c_str() );
  }
  sim::probe( "sizes" );
}

} // namespace

void scenarioWarmup()
{
  LvArray::internal::getArrayManager();
  umpire::ResourceManager::getInstance();
}

void scenario()
{
  LeakCheck leaks;
  std::cout.rdbuf( &out );
  switch( sim::draw( 11 ) )
  {
    case 0: runWith< ArrayKind< double > >(); break;
    case 1: runWith< ArrayKind< int > >(); break;
    case 2: runWith< MatrixKind< float > >(); break;
    case 3: runWith< SortedKind >(); break;
    case 4: runWith< RaggedKind >(); break;
    case 5: runWith< SetsKind >(); break;
    case 6: runWith< PatternKind >(); break;
    case 7: runWith< SparseKind >(); break;
    case 8: runBuffer(); break;
    case 9: runNested(); break;
    default: sizes(); break;
  }
  SIM_CHECK( umpire::ResourceManager::getInstance().live() == 0, "leak", "%zu allocations remain after everything was destroyed", umpire::ResourceManager::getInstance().live() );
  leaks.check( "everything was destroyed" );
}
