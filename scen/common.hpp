// Shared by all scenarios: element types, model values, simulated callers.
#pragma once

#include "sim.hpp"

// Source includes
#include "Array.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SortedArray.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"

#include <algorithm>
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace scn
{

using I = std::ptrdiff_t;
using Id = std::int64_t;

// ------------------------------------------------------------------ an element whose life is followed
/// Set while an operation runs that may move a whole values buffer of a ragged container to new memory. Slots between
/// the inner arrays are then moved although nothing lives in them (known finding dead-slot-relocation).
extern int gapRelocation;
/// Only property C11 is about element life times, the others tolerate that finding.
extern bool reportGaps;
SIM_NOINSTR inline bool mayRelocateGaps() { return gapRelocation > 0; }
SIM_NOINSTR inline void mayRelocateGaps( int const change ) { gapRelocation += change; }

struct Tracked
{
  Id v;

  Tracked(): v( 0 ) { sim::lifeConstruct( this, sizeof( *this ), "default constructed" ); }
  explicit Tracked( Id const x ): v( x ) { sim::lifeConstruct( this, sizeof( *this ), "constructed" ); }
  Tracked( Tracked const & o ): v( read( o, "copied" ) ) { sim::lifeConstruct( this, sizeof( *this ), "copy constructed" ); }
  Tracked( Tracked && o )
  {
    if( !sim::lifeIsLive( &o ) )
    {
      if( mayRelocateGaps() && sim::lifeRelocate( this, &o, sizeof( *this ), reportGaps ) ) return;
      sim::fail( "use-of-dead-element", "an element that was never constructed or already destroyed is moved from" );
    }
    v = o.v;
    o.v = -7;
    sim::lifeConstruct( this, sizeof( *this ), "move constructed" );
  }
  Tracked & operator=( Tracked const & o )
  {
    Id const x = read( o, "copy assigned from" );
    (void) read( *this, "assigned to" );
    v = x;
    return *this;
  }
  Tracked & operator=( Tracked && o )
  {
    Id const x = read( o, "move assigned from" );
    (void) read( *this, "assigned to" );
    if( this != &o ) { o.v = -7; v = x; }
    return *this;
  }
  ~Tracked() { if( sim::lifeDestroy( this, sizeof( *this ) ) ) v = -9; }

  static Id read( Tracked const & o, char const * const how )
  {
    if( !sim::lifeIsLive( &o ) ) sim::fail( "use-of-dead-element", "an element that was never constructed or already destroyed is %s", how );
    return o.v;
  }

  friend bool operator<( Tracked const & a, Tracked const & b ) { return read( a, "compared" ) < read( b, "compared" ); }
  friend bool operator>( Tracked const & a, Tracked const & b ) { return b < a; }
  friend bool operator==( Tracked const & a, Tracked const & b ) { return read( a, "compared" ) == read( b, "compared" ); }
  friend bool operator!=( Tracked const & a, Tracked const & b ) { return !( a == b ); }
  friend bool operator<=( Tracked const & a, Tracked const & b ) { return !( b < a ); }
  friend bool operator>=( Tracked const & a, Tracked const & b ) { return !( a < b ); }
  friend std::ostream & operator<<( std::ostream & s, Tracked const & t ) { return s << t.v; }
};

// ------------------------------------------------------------------ model values: every element stands for an Id
template< typename T > struct Elem;

template<> struct Elem< std::int64_t >
{
  static std::int64_t make( Id i ) { return i; }
  static Id id( std::int64_t const & t ) { return t; }
  static char const * name() { return "int64"; }
};
template<> struct Elem< int >
{
  static int make( Id i ) { return int( i ); }
  static Id id( int const & t ) { return t; }
  static char const * name() { return "int"; }
};
template<> struct Elem< double >
{
  static double make( Id i ) { return double( i ) * 0.25; }
  static Id id( double const & t ) { return Id( t * 4 ); }
  static char const * name() { return "double"; }
};
/// An element whose size is neither that of an index nor a power of two. All zero bytes stand for 0.
struct Triple
{
  std::int32_t a, b, c;
  friend bool operator==( Triple const & x, Triple const & y ) { return x.a == y.a && x.b == y.b && x.c == y.c; }
  friend bool operator!=( Triple const & x, Triple const & y ) { return !( x == y ); }
  friend bool operator<( Triple const & x, Triple const & y ) { return x.a < y.a; }
  friend bool operator>( Triple const & x, Triple const & y ) { return y < x; }
};
template<> struct Elem< Triple >
{
  static Triple make( Id i ) { return { std::int32_t( i ), std::int32_t( i * 3 ), std::int32_t( i * 5 ) }; }
  static Id id( Triple const & t )
  {
    if( t.b != t.a * 3 || t.c != t.a * 5 ) return -77777;
    return t.a;
  }
  static char const * name() { return "Triple"; }
};
template<> struct Elem< Tracked >
{
  static Tracked make( Id i ) { return Tracked( i ); }
  static Id id( Tracked const & t ) { return Tracked::read( t, "read" ); }
  static char const * name() { return "Tracked"; }
};
template<> struct Elem< std::string >
{ // alternates between strings stored inside the object and strings on the heap; order as the numbers
  static std::string make( Id i )
  {
    if( i == 0 ) return std::string();
    char buf[ 64 ];
    std::snprintf( buf, sizeof( buf ), "%010lld", (long long) i );
    std::string s( buf );
    if( i % 3 == 0 ) s += " a longer string that does not fit inside the object";
    return s;
  }
  static Id id( std::string const & s ) { return s.empty() ? 0 : std::atoll( s.c_str() ); }
  static char const * name() { return "string"; }
};

/// The Id of a value initialised element.
template< typename T > Id defaultId() { return 0; }

inline std::string show( std::vector< Id > const & v )
{
  std::string s = "{";
  for( std::size_t i = 0; i < v.size() && i < 24; ++i ) s += ( i ? "," : "" ) + std::to_string( v[ i ] );
  if( v.size() > 24 ) s += ",...";
  return s + "}";
}

/// Run the body on one or several simulated callers, each with its own objects.
template< typename F >
void callers( int const n, F const & f )
{
  if( n <= 1 ) { f( 0 ); return; }
  sim::probe( "several-callers" );
  sim::parallel( n, [ &f ]( int const t ) { f( t ); } );
}

/// At the end of a run nothing allocated by the containers may remain.
struct LeakCheck
{
  LeakCheck(): m_before( sim::heap() ), m_life( sim::lifeCount() ) {}
  void check( char const * const what ) const
  {
    SIM_CHECK( sim::lifeCount() == m_life, "element-not-destroyed", "%lld elements are still alive after %s", (long long) ( sim::lifeCount() - m_life ), what );
    SIM_CHECK( sim::heap().blocks == m_before.blocks, "leak", "%lld allocations remain after %s",
               (long long) ( sim::heap().blocks - m_before.blocks ), what );
    SIM_CHECK( sim::heap().mallocBlocks == m_before.mallocBlocks, "leak", "%lld buffers are still allocated after %s",
               (long long) ( sim::heap().mallocBlocks - m_before.mallocBlocks ), what );
  }
  sim::HeapStats m_before;
  std::uint64_t m_life;
};

} // namespace scn
