// C12: views alias their owner, copies are deep, moves transfer ownership.
#include "common.hpp"

#include "bench_ragged.hpp"

#include <list>
#include <typeinfo>

using namespace LvArray;
using namespace scn;

namespace
{

using Model = std::vector< std::vector< Id > >;
using Team = RAJA::omp_parallel_for_exec;
template< int P > using Power = std::integral_constant< int, P >;

int pick( std::size_t const n ) { return int( sim::draw( std::uint32_t( n ) ) ); }

std::string showModel( Model const & m )
{
  std::string s;
  for( auto const & r : m ) s += scn::show( r ) + " ";
  return s;
}

// ------------------------------------------------------------------ the kinds of containers
// Each kind has a model of rows of values, view types ordered by what they may change (power 0: nothing) and
// operations: create (fresh content), grow (may reallocate), inPlace (through the owner), write (through a view).

template< typename T, typename IT >
struct Flat
{
  using E = Elem< T >;
  using Owner = Array< T, 1, RAJA::PERM_I, IT, MallocBuffer >;
  static constexpr int top = 1;
  static constexpr int lowest = 0;
  static char const * name() { return "array"; }
  static auto view( Owner & o, Power< 1 > ) { return o.toView(); }
  static auto view( Owner & o, Power< 0 > )
  {
    if( sim::chance( 1, 2 ) ) return o.toViewConst();
    ArrayView< T const, 1, 0, IT, MallocBuffer > v = o; // the conversion operator
    return v;
  }
  template< typename V > static auto weaken( V const & v, Power< 1 > )
  {
    if( sim::chance( 1, 2 ) ) return v.toViewConst();
    ArrayView< T const, 1, 0, IT, MallocBuffer > w = v;
    return w;
  }
  template< typename V > static Model read( V const & v )
  {
    Model m( 1 );
    int const how = int( sim::draw( 3 ) );
    for( IT i = 0; i < v.size(); ++i ) m[ 0 ].push_back( E::id( how == 0 ? v[ i ] : how == 1 ? v.data()[ i ] : v.toSliceConst()[ i ] ) );
    return m;
  }
  template< typename V > static bool write( V const & v, Model & m, Id & next, Power< 1 > )
  {
    if( m[ 0 ].empty() ) return false;
    int const i = pick( m[ 0 ].size() );
    switch( sim::draw( 4 ) )
    {
      case 0: v[ IT( i ) ] = E::make( next ); break;
      case 1: v.data()[ i ] = E::make( next ); break;
      case 2: { auto const s = v.toSlice(); s[ IT( i ) ] = E::make( next ); break; }
      default: v.template setValues< RAJA::loop_exec >( E::make( next ) ); m[ 0 ].assign( m[ 0 ].size(), next ); break;
    }
    m[ 0 ][ std::size_t( i ) ] = next++;
    return true;
  }
  static void create( Owner & o, Model & m, Id & next )
  {
    m.assign( 1, {} );
    if( sim::chance( 1, 6 ) ) return;
    int const n = sim::range( 0, 9 );
    if( sim::chance( 1, 2 ) ) o.reserve( IT( n + sim::range( 0, 5 ) ) );
    for( int i = 0; i < n; ++i ) { o.emplace_back( E::make( next ) ); m[ 0 ].push_back( next++ ); }
  }
  static void grow( Owner & o, Model & m, Id & next )
  {
    switch( sim::draw( 4 ) )
    {
      case 0: o.emplace_back( E::make( next ) ); m[ 0 ].push_back( next++ ); break;
      case 1: { int const n = sim::range( 0, 12 ); o.resize( IT( n ) ); m[ 0 ].resize( std::size_t( n ), defaultId< T >() ); break; }
      case 2: o.reserve( IT( sim::range( 0, 30 ) ) ); break;
      default: o.clear(); m[ 0 ].clear();
    }
  }
  static bool inPlace( Owner & o, Model & m, Id & next ) { return write( o, m, next, Power< 1 >() ); }
};

template< typename T, typename PERM >
struct Matrix2
{
  using E = Elem< T >;
  using Owner = Array< T, 2, PERM, I, MallocBuffer >;
  static constexpr int USD = typeManipulation::getStrideOneDimension( PERM {} );
  static constexpr int top = 1;
  static constexpr int lowest = 0;
  static char const * name() { return "2d array"; }
  static auto view( Owner & o, Power< 1 > ) { return o.toView(); }
  static auto view( Owner & o, Power< 0 > ) { return o.toViewConst(); }
  template< typename V > static auto weaken( V const & v, Power< 1 > ) { return v.toViewConst(); }
  template< typename V > static Model read( V const & v )
  {
    Model m( std::size_t( v.size( 0 ) ) );
    int const how = int( sim::draw( 3 ) );
    for( I i = 0; i < v.size( 0 ); ++i ) for( I j = 0; j < v.size( 1 ); ++j ) m[ i ].push_back( E::id( how == 0 ? v( i, j ) : how == 1 ? v[ i ][ j ] : v.toSliceConst()[ i ][ j ] ) );
    return m;
  }
  template< typename V > static bool write( V const & v, Model & m, Id & next, Power< 1 > )
  {
    if( v.size() == 0 ) return false;
    int const i = pick( m.size() ), j = pick( m[ 0 ].size() );
    switch( sim::draw( 4 ) )
    {
      case 0: v( i, j ) = E::make( next ); break;
      case 1: v[ i ][ j ] = E::make( next ); break;
      case 2: { auto const s = v.toSlice(); s( i, j ) = E::make( next ); break; }
      default: v.template setValues< RAJA::loop_exec >( E::make( next ) ); for( auto & r : m ) r.assign( r.size(), next ); break;
    }
    m[ std::size_t( i ) ][ std::size_t( j ) ] = next++;
    return true;
  }
  static void fill( Owner & o, Model & m, Id & next )
  {
    m.assign( std::size_t( o.size( 0 ) ), {} );
    for( I i = 0; i < o.size( 0 ); ++i ) for( I j = 0; j < o.size( 1 ); ++j ) { o( i, j ) = E::make( next ); m[ i ].push_back( next++ ); }
  }
  static void create( Owner & o, Model & m, Id & next )
  {
    m.clear();
    if( sim::chance( 1, 6 ) ) return;
    o.resize( sim::range( 0, 4 ), sim::range( 0, 4 ) );
    fill( o, m, next );
  }
  static void grow( Owner & o, Model & m, Id & next )
  {
    if( sim::chance( 1, 4 ) ) { o.reserve( sim::range( 0, 30 ) ); return; }
    o.resize( sim::range( 0, 5 ), sim::range( 0, 5 ) );
    fill( o, m, next );
  }
  static bool inPlace( Owner & o, Model & m, Id & next )
  {
    pairs( o, m, next, std::integral_constant< bool, std::is_arithmetic< T >::value > {} );
    return write( o, m, next, Power< 1 >() );
  }
  static void pairs( Owner &, Model &, Id &, std::false_type ) {}
  static void pairs( Owner & o, Model & m, Id & next, std::true_type )
  { // the same values seen as pairs, which is only possible when the unit stride dimension is even
    if( o.size() == 0 || o.size( USD ) % 2 ) return;
    ArrayView< T[ 2 ], 2, USD, I, MallocBuffer > const v( o.toView() );
    sim::probe( "reinterpreted" );
    SIM_CHECK( v.size( USD ) == o.size( USD ) / 2 && v.size( 1 - USD ) == o.size( 1 - USD ), "wrong-size", "an array seen as pairs is %dx%d, it is %dx%d", int( v.size( 0 ) ), int( v.size( 1 ) ), int( o.size( 0 ) ), int( o.size( 1 ) ) );
    int const i = pick( std::size_t( v.size( 0 ) ) ), j = pick( std::size_t( v.size( 1 ) ) ), c = pick( 2 );
    v( i, j )[ c ] = E::make( next );
    m[ std::size_t( USD == 0 ? 2 * i + c : i ) ][ std::size_t( USD == 1 ? 2 * j + c : j ) ] = next++;
  }
};

/// In-object storage: no views alias it, the rest is the same.
template< typename T >
struct InObject
{
  using E = Elem< T >;
  using Owner = StackArray< T, 1, RAJA::PERM_I, int, 9 >;
  static constexpr int top = -1;
  static constexpr int lowest = 0;
  static char const * name() { return "in-object array"; }
  template< typename V > static Model read( V const & v )
  {
    Model m( 1 );
    for( int i = 0; i < v.size(); ++i ) m[ 0 ].push_back( E::id( v[ i ] ) );
    return m;
  }
  static void create( Owner & o, Model & m, Id & next )
  {
    m.assign( 1, {} );
    for( int n = sim::range( 0, 9 ); n > 0; --n ) { o.emplace_back( E::make( next ) ); m[ 0 ].push_back( next++ ); }
  }
  static void grow( Owner & o, Model & m, Id & )
  {
    int const n = sim::range( 0, 9 );
    o.resize( n );
    m[ 0 ].resize( std::size_t( n ), 0 );
  }
  static bool inPlace( Owner & o, Model & m, Id & next )
  {
    if( m[ 0 ].empty() ) return false;
    int const i = pick( m[ 0 ].size() );
    if( sim::chance( 1, 2 ) ) o[ i ] = E::make( next );
    else { auto const s = o.toSlice(); s[ i ] = E::make( next ); }
    m[ 0 ][ std::size_t( i ) ] = next++;
    return true;
  }
};

template< typename T >
struct Sorted
{
  using E = Elem< T >;
  using Owner = SortedArray< T, I, MallocBuffer >;
  static constexpr int top = 0;
  static constexpr int lowest = 0;
  static char const * name() { return "sorted array"; }
  static auto view( Owner & o, Power< 0 > )
  { return sim::chance( 1, 2 ) ? o.toView() : o.toViewConst(); }
  template< typename V > static Model read( V const & v )
  {
    Model m( 1 );
    int const how = int( sim::draw( 3 ) );
    for( I i = 0; i < v.size(); ++i ) m[ 0 ].push_back( E::id( how == 0 ? v[ i ] : how == 1 ? v.data()[ i ] : v.toSlice()[ i ] ) );
    if( m[ 0 ].size() ) SIM_CHECK( v.contains( v[ I( m[ 0 ].size() / 2 ) ] ), "wrong-value", "a view does not contain one of its values" );
    return m;
  }
  static void create( Owner & o, Model & m, Id & next )
  {
    m.assign( 1, {} );
    for( int n = sim::range( 0, 8 ); n > 0; --n ) { o.insert( E::make( next ) ); m[ 0 ].push_back( next++ ); }
  }
  static void grow( Owner & o, Model & m, Id & next )
  {
    switch( sim::draw( 4 ) )
    {
      case 0: case 1: o.insert( E::make( next ) ); m[ 0 ].push_back( next++ ); break;
      case 2: if( m[ 0 ].size() ) { int const i = pick( m[ 0 ].size() ); o.remove( E::make( m[ 0 ][ std::size_t( i ) ] ) ); m[ 0 ].erase( m[ 0 ].begin() + i ); } break;
      default: o.reserve( sim::range( 0, 20 ) );
    }
  }
  static bool inPlace( Owner &, Model &, Id & ) { return false; }
};

template< typename T, typename IT >
struct Ragged
{
  using E = Elem< T >;
  using Owner = ArrayOfArrays< T, IT, MallocBuffer >;
  static constexpr int top = 2;
  static constexpr int lowest = 0;
  static char const * name() { return "array of arrays"; }
  static auto view( Owner & o, Power< 2 > ) { return o.toView(); }
  static auto view( Owner & o, Power< 1 > ) { return o.toViewConstSizes(); }
  static auto view( Owner & o, Power< 0 > ) { return o.toViewConst(); }
  template< typename V > static auto weaken( V const & v, Power< 2 > ) { return v.toViewConstSizes(); }
  template< typename V > static auto weaken( V const & v, Power< 1 > ) { return v.toViewConst(); }
  template< typename V > static Model read( V const & v )
  {
    Model m( std::size_t( v.size() ) );
    bool const how = sim::chance( 1, 2 );
    for( IT i = 0; i < v.size(); ++i ) for( IT j = 0; j < v.sizeOfArray( i ); ++j ) m[ std::size_t( i ) ].push_back( E::id( how ? v( i, j ) : v[ i ][ j ] ) );
    return m;
  }
  template< typename V > static bool write( V const & v, Model & m, Id & next, Power< 1 > )
  {
    if( m.empty() ) return false;
    int const i = pick( m.size() );
    auto & r = m[ std::size_t( i ) ];
    if( r.empty() ) return false;
    int const j = pick( r.size() );
    if( sim::chance( 1, 2 ) ) v( IT( i ), IT( j ) ) = E::make( next ); else v[ IT( i ) ][ IT( j ) ] = E::make( next );
    r[ std::size_t( j ) ] = next++;
    return true;
  }
  template< typename V > static bool write( V const & v, Model & m, Id & next, Power< 2 > )
  {
    if( m.empty() || sim::chance( 1, 3 ) ) return write( v, m, next, Power< 1 >() );
    int const i = pick( m.size() );
    auto & r = m[ std::size_t( i ) ];
    if( std::size_t( v.capacityOfArray( IT( i ) ) ) > r.size() && sim::chance( 2, 3 ) )
    {
      int const j = pick( r.size() + 1 );
      if( sim::chance( 1, 2 ) ) { v.emplace( IT( i ), IT( j ), E::make( next ) ); r.insert( r.begin() + j, next++ ); }
      else { v.emplaceBack( IT( i ), E::make( next ) ); r.push_back( next++ ); }
    }
    else if( !r.empty() )
    {
      int const j = pick( r.size() );
      v.eraseFromArray( IT( i ), IT( j ) );
      r.erase( r.begin() + j );
    }
    return true;
  }
  static void create( Owner & o, Model & m, Id & next )
  {
    m.clear();
    if( sim::chance( 1, 6 ) ) return;
    std::vector< IT > caps;
    for( int n = sim::range( 0, 6 ); n > 0; --n ) caps.push_back( IT( sim::range( 0, 5 ) ) );
    o.template resizeFromCapacities< RAJA::loop_exec >( IT( caps.size() ), caps.data() );
    m.resize( caps.size() );
    for( std::size_t i = 0; i < caps.size(); ++i )
      for( int n = sim::range( 0, int( caps[ i ] ) ); n > 0; --n ) { o.emplaceBack( IT( i ), E::make( next ) ); m[ i ].push_back( next++ ); }
  }
  static void grow( Owner & o, Model & m, Id & next )
  {
    switch( m.empty() ? 0 : sim::draw( 5 ) ) // a moved-from container has to be resized first
    {
      case 0: { int const n = sim::range( 0, 7 ); o.resize( IT( n ), IT( sim::range( 0, 3 ) ) ); m.resize( std::size_t( n ) ); break; }
      case 1: o.resize( IT( m.size() + 1 ) ); m.push_back( {} ); break;
      case 2: o.compress(); break;
      case 3: o.reserveValues( IT( sim::range( 0, 60 ) ) ); break;
      default:
        for( std::size_t i = 0; i < m.size(); ++i ) { o.emplaceBack( IT( i ), E::make( next ) ); m[ i ].push_back( next++ ); }
    }
  }
  static bool inPlace( Owner & o, Model & m, Id & next )
  {
    if( m.empty() ) return false;
    int const i = pick( m.size() );
    auto & r = m[ std::size_t( i ) ];
    if( std::size_t( o.capacityOfArray( IT( i ) ) ) > r.size() ) { o.emplaceBack( IT( i ), E::make( next ) ); r.push_back( next++ ); return true; }
    if( r.empty() ) return false;
    o( IT( i ), 0 ) = E::make( next );
    r[ 0 ] = next++;
    return true;
  }
};

template< typename T >
struct Sets
{
  using E = Elem< T >;
  using Owner = ArrayOfSets< T, I, MallocBuffer >;
  static constexpr int top = 1;
  static constexpr int lowest = -1;
  static char const * name() { return "array of sets"; }
  static auto view( Owner & o, Power< 1 > ) { return o.toView(); }
  static auto view( Owner & o, Power< 0 > ) { return o.toViewConst(); }
  static auto view( Owner & o, Power< -1 > ) { return o.toArrayOfArraysView(); }
  template< typename V > static auto weaken( V const & v, Power< 1 > ) { return v.toViewConst(); }
  template< typename V > static auto weaken( V const & v, Power< 0 > ) { return v.toArrayOfArraysView(); }
  template< typename U, typename IT > static I count( ArrayOfArraysView< U, IT, true, MallocBuffer > const & v, I const i ) { return v.sizeOfArray( i ); }
  template< typename U, typename IT > static I count( ArrayOfSetsView< U, IT, MallocBuffer > const & v, I const i ) { return v.sizeOfSet( i ); }
  static I count( Owner const & v, I const i ) { return v.sizeOfSet( i ); }
  template< typename V > static Model read( V const & v )
  {
    Model m( std::size_t( v.size() ) );
    bool const how = sim::chance( 1, 2 );
    for( I i = 0; i < v.size(); ++i ) for( I j = 0; j < count( v, i ); ++j ) m[ std::size_t( i ) ].push_back( E::id( how ? v( i, j ) : v[ i ][ j ] ) );
    return m;
  }
  template< typename V > static bool write( V const & v, Model & m, Id & next, Power< 1 > )
  {
    if( m.empty() ) return false;
    int const i = pick( m.size() );
    auto & r = m[ std::size_t( i ) ];
    if( std::size_t( v.capacityOfSet( i ) ) > r.size() && sim::chance( 2, 3 ) )
    {
      SIM_CHECK( v.insertIntoSet( i, E::make( next ) ), "wrong-value", "a new value was not inserted" );
      r.push_back( next++ );
    }
    else if( !r.empty() )
    {
      int const j = pick( r.size() );
      SIM_CHECK( v.removeFromSet( i, E::make( r[ std::size_t( j ) ] ) ), "wrong-value", "a value was not found" );
      r.erase( r.begin() + j );
    }
    return true;
  }
  static void create( Owner & o, Model & m, Id & next )
  {
    m.clear();
    if( sim::chance( 1, 6 ) ) return;
    std::vector< I > caps;
    for( int n = sim::range( 0, 6 ); n > 0; --n ) caps.push_back( sim::range( 0, 5 ) );
    o.template resizeFromCapacities< RAJA::loop_exec >( I( caps.size() ), caps.data() );
    m.resize( caps.size() );
    for( std::size_t i = 0; i < caps.size(); ++i )
      for( int n = sim::range( 0, int( caps[ i ] ) ); n > 0; --n ) { o.insertIntoSet( I( i ), E::make( next ) ); m[ i ].push_back( next++ ); }
  }
  static void grow( Owner & o, Model & m, Id & next )
  {
    switch( m.empty() ? 0 : sim::draw( 4 ) )
    {
      case 0: { int const n = sim::range( 0, 7 ); o.resize( n, sim::range( 0, 3 ) ); m.resize( std::size_t( n ) ); break; }
      case 1: o.compress(); break;
      case 2: o.reserveValues( sim::range( 0, 60 ) ); break;
      default:
        for( std::size_t i = 0; i < m.size(); ++i ) { o.insertIntoSet( I( i ), E::make( next ) ); m[ i ].push_back( next++ ); }
    }
  }
  static bool inPlace( Owner & o, Model & m, Id & next )
  {
    if( m.empty() ) return false;
    int const i = pick( m.size() );
    auto & r = m[ std::size_t( i ) ];
    if( std::size_t( o.capacityOfSet( i ) ) > r.size() ) { o.insertIntoSet( i, E::make( next ) ); r.push_back( next++ ); return true; }
    if( r.empty() ) return false;
    o.removeFromSet( i, E::make( r[ 0 ] ) );
    r.erase( r.begin() );
    return true;
  }
};

struct Pattern
{
  using Owner = SparsityPattern< int, I, MallocBuffer >;
  static constexpr int top = 1;
  static constexpr int lowest = 0;
  static constexpr I NCOLS = 1000000;
  static char const * name() { return "pattern"; }
  static auto view( Owner & o, Power< 1 > ) { return o.toView(); }
  static auto view( Owner & o, Power< 0 > ) { return o.toViewConst(); }
  template< typename V > static auto weaken( V const & v, Power< 1 > ) { return v.toViewConst(); }
  template< typename V > static Model read( V const & v )
  {
    Model m( std::size_t( v.numRows() ) );
    for( I i = 0; i < v.numRows(); ++i ) for( I j = 0; j < v.numNonZeros( i ); ++j ) m[ std::size_t( i ) ].push_back( v.getColumns( i )[ j ] );
    SIM_CHECK( m.empty() || v.numColumns() == NCOLS, "wrong-size", "there are %d columns", int( v.numColumns() ) );
    return m;
  }
  template< typename V > static bool write( V const & v, Model & m, Id & next, Power< 1 > )
  {
    if( m.empty() ) return false;
    int const i = pick( m.size() );
    auto & r = m[ std::size_t( i ) ];
    if( std::size_t( v.nonZeroCapacity( i ) ) > r.size() && sim::chance( 2, 3 ) ) { SIM_CHECK( v.insertNonZero( i, int( next ) ), "wrong-value", "a new column was not inserted" ); r.push_back( next++ ); }
    else if( !r.empty() )
    {
      int const j = pick( r.size() );
      SIM_CHECK( v.removeNonZero( i, int( r[ std::size_t( j ) ] ) ), "wrong-value", "a column was not found" );
      r.erase( r.begin() + j );
    }
    return true;
  }
  static void create( Owner & o, Model & m, Id & next )
  {
    std::vector< I > caps;
    for( int n = sim::range( 0, 6 ); n > 0; --n ) caps.push_back( sim::range( 0, 5 ) );
    o.resizeFromRowCapacities< RAJA::loop_exec >( I( caps.size() ), NCOLS, caps.data() );
    m.assign( caps.size(), {} );
    for( std::size_t i = 0; i < caps.size(); ++i )
      for( int n = sim::range( 0, int( caps[ i ] ) ); n > 0; --n ) { o.insertNonZero( I( i ), int( next ) ); m[ i ].push_back( next++ ); }
  }
  static void grow( Owner & o, Model & m, Id & next )
  {
    switch( m.empty() ? 0 : sim::draw( 3 ) )
    {
      case 0: { int const n = sim::range( 0, 7 ); o.resize( n, NCOLS, sim::range( 0, 3 ) ); m.resize( std::size_t( n ) ); break; }
      case 1: o.compress(); break;
      default:
        for( std::size_t i = 0; i < m.size(); ++i ) { o.insertNonZero( I( i ), int( next ) ); m[ i ].push_back( next++ ); }
    }
  }
  static bool inPlace( Owner & o, Model & m, Id & next )
  {
    if( m.empty() ) return false;
    int const i = pick( m.size() );
    auto & r = m[ std::size_t( i ) ];
    if( std::size_t( o.nonZeroCapacity( i ) ) <= r.size() ) return false;
    o.insertNonZero( i, int( next ) );
    r.push_back( next++ );
    return true;
  }
};

/// Rows of column and entry in turn.
template< typename T >
struct Sparse
{
  using E = Elem< T >;
  using Owner = CRSMatrix< T, int, I, MallocBuffer >;
  static constexpr int top = 2;
  static constexpr int lowest = 0;
  static constexpr I NCOLS = 1000000;
  static char const * name() { return "matrix"; }
  static auto view( Owner & o, Power< 2 > ) { return o.toView(); }
  static auto view( Owner & o, Power< 1 > ) { return o.toViewConstSizes(); }
  static auto view( Owner & o, Power< 0 > ) { return o.toViewConst(); }
  template< typename V > static auto weaken( V const & v, Power< 2 > ) { return v.toViewConstSizes(); }
  template< typename V > static auto weaken( V const & v, Power< 1 > ) { return v.toViewConst(); }
  template< typename V > static Model read( V const & v )
  {
    Model m( std::size_t( v.numRows() ) );
    for( I i = 0; i < v.numRows(); ++i )
      for( I j = 0; j < v.numNonZeros( i ); ++j )
      {
        m[ std::size_t( i ) ].push_back( v.getColumns( i )[ j ] );
        m[ std::size_t( i ) ].push_back( E::id( v.getEntries( i )[ j ] ) );
      }
    if( !m.empty() )
    {
      auto const & pattern = v.toSparsityPatternView();
      SIM_CHECK( pattern.numRows() == v.numRows() && pattern.numColumns() == NCOLS && pattern.numNonZeros( 0 ) == I( m[ 0 ].size() / 2 ), "wrong-size", "the pattern of the matrix has another shape" );
    }
    return m;
  }
  template< typename V > static bool write( V const & v, Model & m, Id & next, Power< 1 > )
  {
    if( m.empty() ) return false;
    int const i = pick( m.size() );
    auto & r = m[ std::size_t( i ) ];
    if( r.empty() ) return false;
    int const j = pick( r.size() / 2 );
    v.getEntries( i )[ j ] = E::make( next );
    r[ std::size_t( 2 * j + 1 ) ] = next++;
    return true;
  }
  template< typename V > static bool write( V const & v, Model & m, Id & next, Power< 2 > )
  {
    if( m.empty() || sim::chance( 1, 3 ) ) return write( v, m, next, Power< 1 >() );
    int const i = pick( m.size() );
    auto & r = m[ std::size_t( i ) ];
    if( std::size_t( v.nonZeroCapacity( i ) ) > r.size() / 2 && sim::chance( 2, 3 ) ) insert( v, i, r, next );
    else if( !r.empty() )
    {
      int const j = pick( r.size() / 2 );
      SIM_CHECK( v.removeNonZero( i, int( r[ std::size_t( 2 * j ) ] ) ), "wrong-value", "a column was not found" );
      r.erase( r.begin() + 2 * j, r.begin() + 2 * j + 2 );
    }
    return true;
  }
  template< typename V > static void insert( V && v, int const i, std::vector< Id > & r, Id & next )
  {
    SIM_CHECK( v.insertNonZero( i, int( next ), E::make( next ) ), "wrong-value", "a new entry was not inserted" );
    r.push_back( next );
    r.push_back( next++ );
  }
  static void create( Owner & o, Model & m, Id & next )
  {
    std::vector< I > caps;
    for( int n = sim::range( 0, 6 ); n > 0; --n ) caps.push_back( sim::range( 0, 5 ) );
    o.template resizeFromRowCapacities< RAJA::loop_exec >( I( caps.size() ), NCOLS, caps.data() );
    m.assign( caps.size(), {} );
    for( std::size_t i = 0; i < caps.size(); ++i ) for( int n = sim::range( 0, int( caps[ i ] ) ); n > 0; --n ) insert( o, int( i ), m[ i ], next );
  }
  static void grow( Owner & o, Model & m, Id & next )
  {
    switch( m.empty() ? 0 : sim::draw( 3 ) )
    {
      case 0: { int const n = sim::range( 0, 7 ); o.resize( n, NCOLS, sim::range( 0, 3 ) ); m.resize( std::size_t( n ) ); break; }
      case 1: o.compress(); break;
      default: for( std::size_t i = 0; i < m.size(); ++i ) insert( o, int( i ), m[ i ], next );
    }
  }
  static bool inPlace( Owner & o, Model & m, Id & next )
  {
    if( m.empty() ) return false;
    int const i = pick( m.size() );
    auto & r = m[ std::size_t( i ) ];
    if( std::size_t( o.nonZeroCapacity( i ) ) > r.size() / 2 ) { insert( o, i, r, next ); return true; }
    return write( o, m, next, Power< 1 >() );
  }
};

/// Arrays in an array, seen through views of the inner ones: those even follow when an inner array is reallocated.
template< typename T >
struct Nested
{
  using E = Elem< T >;
  using Inner = Array< T, 1, RAJA::PERM_I, I, MallocBuffer >;
  using Owner = Array< Inner, 1, RAJA::PERM_I, I, MallocBuffer >;
  static constexpr int top = 1;
  static constexpr int lowest = 0;
  static char const * name() { return "array of arrays with nested views"; }
  static auto view( Owner & o, Power< 1 > ) { return o.toNestedView(); }
  static auto view( Owner & o, Power< 0 > ) { return o.toNestedViewConst(); }
  template< typename V > static auto weaken( V const & v, Power< 1 > ) { return v.toNestedViewConst(); }
  template< typename V > static Model read( V const & v )
  {
    Model m( std::size_t( v.size() ) );
    for( I i = 0; i < v.size(); ++i ) for( I j = 0; j < v[ i ].size(); ++j ) m[ std::size_t( i ) ].push_back( E::id( v[ i ][ j ] ) );
    return m;
  }
  template< typename V > static bool write( V const & v, Model & m, Id & next, Power< 1 > )
  {
    if( m.empty() ) return false;
    int const i = pick( m.size() );
    auto & r = m[ std::size_t( i ) ];
    if( r.empty() ) return false;
    int const j = pick( r.size() );
    v[ i ][ j ] = E::make( next );
    r[ std::size_t( j ) ] = next++;
    return true;
  }
  static void create( Owner & o, Model & m, Id & next )
  {
    int const n = sim::range( 0, 5 );
    o.resize( n );
    m.assign( std::size_t( n ), {} );
    for( int i = 0; i < n; ++i ) for( int k = sim::range( 0, 4 ); k > 0; --k ) { o[ i ].emplace_back( E::make( next ) ); m[ std::size_t( i ) ].push_back( next++ ); }
  }
  static void grow( Owner & o, Model & m, Id & next )
  {
    if( sim::chance( 1, 2 ) ) { int const n = sim::range( 0, 6 ); o.resize( n ); m.resize( std::size_t( n ) ); return; }
    Inner in;
    for( int k = sim::range( 0, 4 ); k > 0; --k ) in.emplace_back( E::make( next + k ) );
    std::vector< Id > ids;
    for( I k = 0; k < in.size(); ++k ) ids.push_back( E::id( in[ k ] ) );
    next += 10;
    if( sim::chance( 1, 2 ) ) o.emplace_back( in ); else o.emplace_back( std::move( in ) );
    m.push_back( ids );
  }
  static bool inPlace( Owner & o, Model & m, Id & next )
  {
    if( m.empty() ) return false;
    int const i = pick( m.size() );
    o[ i ].emplace_back( E::make( next ) );
    m[ std::size_t( i ) ].push_back( next++ );
    return true;
  }
};

// ------------------------------------------------------------------ views of any kind
struct AnyView
{
  virtual ~AnyView() {}
  virtual int power() const = 0;
  virtual Model read() const = 0;
  virtual bool write( Model & m, Id & next ) const = 0;
  virtual AnyView * copy( int how ) const = 0;
  virtual AnyView * weaken() const = 0;
  virtual void assign( AnyView const & o, bool move ) = 0;
  virtual void kernelRead( Model const & expected ) const = 0;
  virtual void kernelWrite( Model & m, Id & next ) const = 0;
};

template< typename K, typename V, int P > struct ViewOf;

template< typename K, int P, bool = ( P > K::lowest ) >
struct Weaken
{
  template< typename V > static AnyView * apply( V const & v )
  {
    auto w = K::weaken( v, Power< P >() );
    sim::probe( "converted" );
    return new ViewOf< K, std::decay_t< decltype( w ) >, P - 1 >( w );
  }
};
template< typename K, int P >
struct Weaken< K, P, false >
{ template< typename V > static AnyView * apply( V const & v ) { return new ViewOf< K, V, P >( v ); } };

template< typename K, int P, bool = ( P > 0 ) >
struct Write
{ template< typename V > static bool apply( V const & v, Model & m, Id & next ) { return K::write( v, m, next, Power< P >() ); } };
template< typename K, int P >
struct Write< K, P, false >
{ template< typename V > static bool apply( V const &, Model &, Id & ) { return false; } };

template< typename K, typename V, int P >
struct ViewOf : AnyView
{
  V v;
  explicit ViewOf( V const & x ): v( x ) {}
  int power() const override { return P; }
  Model read() const override { return K::read( v ); }
  bool write( Model & m, Id & next ) const override { return Write< K, P >::apply( v, m, next ); }
  AnyView * copy( int const how ) const override
  {
    switch( how )
    {
      case 0: return new ViewOf( v );
      case 1:
      {
        V tmp( v );
        V moved( std::move( tmp ) );
        return new ViewOf( moved );
      }
      case 2:
      {
        V const here( v );
        auto const f = [ here ]() { return here; };
        return new ViewOf( f() );
      }
      default:
      {
        std::unique_ptr< ViewOf > first( new ViewOf( v ) ); // the copied one may die first
        return new ViewOf( first->v );
      }
    }
  }
  AnyView * weaken() const override { return Weaken< K, P >::apply( v ); }
  void assign( AnyView const & o, bool const move ) override
  {
    ViewOf const * const same = dynamic_cast< ViewOf const * >( &o );
    if( !same ) return;
    if( move )
    {
      V tmp( same->v );
      v = std::move( tmp );
    }
    else v = same->v;
  }
  void kernelRead( Model const & expected ) const override
  {
    V const here( v );
    Model const * const e = &expected;
    RAJA::forall< Team >( RAJA::TypedRangeSegment< I >( 0, 3 ), [ here, e ]( I )
    {
      Model const got = K::read( here );
      sim::NoTrack quiet;
      SIM_CHECK( got == *e, "stale-view", "a kernel sees %sthrough its captured view, the container holds %s", showModel( got ).c_str(), showModel( *e ).c_str() );
    } );
  }
  void kernelWrite( Model & m, Id & next ) const override
  {
    V const here( v );
    RAJA::forall< Team >( RAJA::TypedRangeSegment< I >( 0, 1 ), [ here, &m, &next ]( I )
    { Write< K, P >::apply( here, m, next ); } );
  }
};

template< typename K, int P >
AnyView * makeView( typename K::Owner & o )
{
  auto v = K::view( o, Power< P >() );
  return new ViewOf< K, std::decay_t< decltype( v ) >, P >( v );
}

template< typename K, bool = ( K::top >= 0 ) >
struct Views
{
  static AnyView * make( typename K::Owner & o )
  {
    int const p = int( sim::draw( std::uint32_t( K::top - K::lowest + 1 ) ) ) + K::lowest;
    return pickPower( o, p, Power< K::top >() );
  }
  template< int P >
  static std::enable_if_t< ( P > K::lowest ), AnyView * > pickPower( typename K::Owner & o, int const p, Power< P > )
  { return p == P ? makeView< K, P >( o ) : pickPower( o, p, Power< P - 1 >() ); }
  template< int P >
  static std::enable_if_t< ( P == K::lowest ), AnyView * > pickPower( typename K::Owner & o, int, Power< P > ) { return makeView< K, P >( o ); }
};
template< typename K >
struct Views< K, false >
{ static AnyView * make( typename K::Owner & ) { return nullptr; } };

// ------------------------------------------------------------------ histories
template< typename K >
struct World
{
  using Owner = typename K::Owner;
  static constexpr int N = 3;
  struct Slot
  {
    std::unique_ptr< Owner > owner;
    int store;
    Model m;
  };
  struct Held
  {
    int store;
    std::unique_ptr< AnyView > v;
  };
  Slot slot[ N ];
  std::list< Held > views;
  int stores = 0;
  Id next = 1;

  World() { for( Slot & s : slot ) fresh( s ); }

  void fresh( Slot & s )
  {
    s.owner.reset( new Owner() );
    s.store = ++stores;
    s.m.clear();
    K::create( *s.owner, s.m, next );
  }
  void drop( int const store )
  {
    for( auto it = views.begin(); it != views.end(); )
      if( it->store == store ) it = views.erase( it ); else ++it;
  }
  Slot * holder( int const store ) { for( Slot & s : slot ) if( s.store == store && s.owner ) return &s; return nullptr; }

  /// Every length of a moved-from array is zero, not only one of them.
  template< typename O > static auto lengths( O const & o, int ) -> decltype( void( o.size( 0 ) ), void( O::NDIM ) )
  {
    for( int d = 0; d < O::NDIM; ++d )
      SIM_CHECK( o.size( d ) == 0, "moved-from-not-empty", "dimension %d of a moved-from %s has length %d", d, K::name(), int( o.size( d ) ) );
  }
  template< typename O > static auto lengths( O const & o, int ) -> decltype( void( o.numColumns() ) )
  { SIM_CHECK( o.numRows() == 0 && o.numColumns() == 0, "moved-from-not-empty", "%d rows, %d columns remain in a moved-from %s", int( o.numRows() ), int( o.numColumns() ), K::name() ); }
  template< typename O > static void lengths( O const &, long ) {}

  /// The content of a moved-from container is nothing.
  void becomesEmpty( Slot & s )
  {
    s.store = ++stores;
    lengths( *s.owner, 0 );
    Owner const empty;
    s.m = K::read( empty );
  }

  typename std::list< Held >::iterator anyView()
  {
    auto it = views.begin();
    std::advance( it, pick( views.size() ) );
    return it;
  }

  void step()
  {
    sim::Span span;
    MayRelocate reloc;
    int const a = pick( N ), b = pick( N );
    Slot & x = slot[ a ], & y = slot[ b ];
    int const op = int( sim::draw( 20 ) );
    sim::log( "%s op %d on %d %d, %zu views", K::name(), op, a, b, views.size() );
    switch( op )
    {
      case 0: case 1:
      {
        AnyView * const v = Views< K >::make( *x.owner );
        if( v ) views.push_back( Held{ x.store, std::unique_ptr< AnyView >( v ) } );
        break;
      }
      case 2:
        if( views.size() && views.size() < 12 ) { auto const it = anyView(); views.push_back( Held{ it->store, std::unique_ptr< AnyView >( it->v->copy( int( sim::draw( 4 ) ) ) ) } ); sim::probe( "view-copied" ); }
        break;
      case 3:
        if( views.size() && views.size() < 12 ) { auto const it = anyView(); views.push_back( Held{ it->store, std::unique_ptr< AnyView >( it->v->weaken() ) } ); }
        break;
      case 4:
        if( views.size() > 1 )
        {
          auto const to = anyView(), from = anyView();
          if( typeid( *to->v ) == typeid( *from->v ) ) { to->v->assign( *from->v, sim::chance( 1, 2 ) ); to->store = from->store; sim::probe( "view-assigned" ); }
        }
        break;
      case 5: if( views.size() ) views.erase( anyView() ); break;
      case 6: case 7: case 8:
        if( views.size() )
        {
          auto const it = anyView();
          Slot * const s = holder( it->store );
          if( it->v->write( s->m, next ) ) sim::probe( "written-through-view" );
        }
        break;
      case 9: if( views.size() ) { auto const it = anyView(); it->v->kernelRead( holder( it->store )->m ); sim::probe( "captured" ); } break;
      case 10: if( views.size() ) { auto const it = anyView(); if( it->v->power() > 0 ) { it->v->kernelWrite( holder( it->store )->m, next ); sim::probe( "captured" ); } } break;
      case 11: K::inPlace( *x.owner, x.m, next ); break;
      case 12: drop( x.store ); K::grow( *x.owner, x.m, next ); break;
      case 13:
        if( a == b ) break;
        drop( x.store );
        x.owner.reset( new Owner( *y.owner ) );
        x.store = ++stores;
        x.m = y.m;
        sim::probe( "copy-constructed" );
        break;
      case 14:
        if( a != b ) { drop( x.store ); x.store = ++stores; }
        *x.owner = *y.owner;
        x.m = y.m;
        sim::probe( "copy-assigned" );
        if( a == b ) drop( x.store );
        break;
      case 15:
        if( a == b ) break;
        drop( x.store );
        x.owner.reset( new Owner( std::move( *y.owner ) ) );
        x.m = y.m;
        x.store = y.store;
        becomesEmpty( y );
        sim::probe( "move-constructed" );
        break;
      case 16:
        if( a == b ) break;
        drop( x.store );
        *x.owner = std::move( *y.owner );
        x.m = y.m;
        x.store = y.store;
        becomesEmpty( y );
        sim::probe( "move-assigned" );
        break;
      case 17:
        if( a == b ) break;
        std::swap( *x.owner, *y.owner );
        std::swap( x.m, y.m );
        std::swap( x.store, y.store );
        sim::probe( "swapped" );
        break;
      case 18: drop( x.store ); x.owner.reset(); fresh( x ); break;
      default:
      { // a container that lives shorter than what it gave away
        if( a == b ) break;
        Owner local( *y.owner );
        drop( x.store );
        if( sim::chance( 1, 2 ) ) *x.owner = std::move( local );
        else *x.owner = local;
        x.m = y.m;
        x.store = ++stores;
      }
    }
    if( views.size() > 1 ) sim::probe( "nontrivial" );
    if( K::top < 0 && op >= 13 ) sim::probe( "nontrivial" );
  }

  void verify()
  {
    for( int k = 0; k < N; ++k )
    {
      Model const got = K::read( *slot[ k ].owner );
      SIM_CHECK( got == slot[ k ].m, "wrong-value", "%s %d holds %s, expected %s", K::name(), k, showModel( got ).c_str(), showModel( slot[ k ].m ).c_str() );
    }
    for( Held const & h : views )
    {
      Slot * const s = holder( h.store );
      if( !s ) continue;
      Model const got = h.v->read();
      SIM_CHECK( got == s->m, "stale-view", "a view (power %d) of a %s sees %s, the container holds %s", h.v->power(), K::name(), showModel( got ).c_str(), showModel( s->m ).c_str() );
    }
  }
};

template< typename K >
void run()
{
  LeakCheck leaks;
  callers( sim::chance( 1, 6 ) ? 2 : 1, []( int )
  {
    World< K > w;
    while( sim::more( 26 ) )
    {
      w.step();
      w.verify();
    }
    // views may outlive their owners as long as nothing is read
    if( sim::chance( 1, 2 ) ) for( auto & s : w.slot ) s.owner.reset();
  } );
  leaks.check( "the containers were destroyed" );
}

} // namespace

void scenarioWarmup() {}

void scenario()
{
  switch( sim::draw( 15 ) )
  {
    case 0: run< Flat< std::int64_t, I > >(); break;
    case 1: run< Flat< Tracked, int > >(); break;
    case 2: run< Matrix2< std::int64_t, RAJA::PERM_IJ > >(); break;
    case 3: run< Matrix2< double, RAJA::PERM_JI > >(); break;
    case 4: run< InObject< std::int64_t > >(); break;
    case 5: run< Sorted< int > >(); break;
    case 6: run< Sorted< Tracked > >(); break;
    case 7: run< Ragged< std::int64_t, I > >(); break;
    case 8: run< Ragged< Tracked, int > >(); break;
    case 9: run< Sets< double > >(); break;
    case 10: run< Sets< Tracked > >(); break;
    case 11: run< Pattern >(); break;
    case 12: run< Sparse< double > >(); break;
    case 13: run< Sparse< Tracked > >(); break;
    default: run< Nested< std::int64_t > >(); break;
  }
}
