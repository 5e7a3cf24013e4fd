// C04: data-parallel bulk operations do not depend on the schedule.
#include "common.hpp"
#include "bench_sparse.hpp"

using namespace LvArray;
using namespace scn;

namespace
{

using Seq = RAJA::loop_exec;
using Team = RAJA::omp_parallel_for_exec;

std::vector< I > drawCapacities()
{
  std::vector< I > cap;
  int const n = sim::chance( 1, 8 ) ? 0 : sim::chance( 1, 4 ) ? sim::range( 10, 45 ) : sim::range( 1, 9 );
  int const kind = int( sim::draw( 4 ) );
  for( int i = 0; i < n; ++i ) cap.push_back( kind == 0 ? 0 : kind == 1 ? 1 : sim::chance( 1, 4 ) ? 0 : sim::range( 1, kind == 2 ? 3 : 9 ) );
  if( n == 0 ) sim::probe( "no-parts" );
  else if( kind == 0 ) sim::probe( "only-empty-parts" );
  return cap;
}

// How each ragged container is built, filled and looked at.
template< typename T >
struct Arrays
{
  using C = ArrayOfArrays< T, I, MallocBuffer >;
  static constexpr bool isSparse = false;
  template< typename POLICY > static void build( C & c, I const n, I const * const cap ) { c.template resizeFromCapacities< POLICY >( n, cap ); }
  static void add( C & c, I const i, Id const id ) { c.emplaceBack( i, Elem< T >::make( id ) ); }
  static I count( C const & c ) { return c.size(); }
  static I sizeOf( C const & c, I const i ) { return c.sizeOfArray( i ); }
  static I capOf( C const & c, I const i ) { return c.capacityOfArray( i ); }
  static Id at( C const & c, I const i, I const j ) { return Elem< T >::id( c( i, j ) ); }
  static void const * where( C const & c ) { return c.toViewConst().getValues(); }
};

template< typename T >
struct Sets
{
  using C = ArrayOfSets< T, I, MallocBuffer >;
  template< typename POLICY > static void build( C & c, I const n, I const * const cap ) { c.template resizeFromCapacities< POLICY >( n, cap ); }
  static void add( C & c, I const i, Id const id ) { c.insertIntoSet( i, Elem< T >::make( id ) ); }
  static I count( C const & c ) { return c.size(); }
  static I sizeOf( C const & c, I const i ) { return c.sizeOfSet( i ); }
  static I capOf( C const & c, I const i ) { return c.capacityOfSet( i ); }
  static Id at( C const & c, I const i, I const j ) { return Elem< T >::id( c( i, j ) ); }
  static void const * where( C const & ) { return nullptr; }
};

struct Patterns
{
  using C = SparsityPattern< long long, I, MallocBuffer >;
  template< typename POLICY > static void build( C & c, I const n, I const * const cap ) { c.template resizeFromRowCapacities< POLICY >( n, 100000, cap ); }
  static void add( C & c, I const i, Id const id ) { c.insertNonZero( i, id ); }
  static I count( C const & c ) { return c.numRows(); }
  static I sizeOf( C const & c, I const i ) { return c.numNonZeros( i ); }
  static I capOf( C const & c, I const i ) { return c.nonZeroCapacity( i ); }
  static Id at( C const & c, I const i, I const j ) { return c.getColumns( i )[ j ]; }
  static void const * where( C const & c ) { return c.toViewConst().getColumns(); }
};

template< typename T >
struct Matrices
{
  using C = CRSMatrix< T, long long, I, MallocBuffer >;
  template< typename POLICY > static void build( C & c, I const n, I const * const cap ) { c.template resizeFromRowCapacities< POLICY >( n, 100000, cap ); }
  static void add( C & c, I const i, Id const id ) { c.insertNonZero( i, id, Elem< T >::make( id ) ); }
  static I count( C const & c ) { return c.numRows(); }
  static I sizeOf( C const & c, I const i ) { return c.numNonZeros( i ); }
  static I capOf( C const & c, I const i ) { return c.nonZeroCapacity( i ); }
  static Id at( C const & c, I const i, I const j )
  {
    Id const col = c.getColumns( i )[ j ], entry = Elem< T >::id( c.getEntries( i )[ j ] );
    SIM_CHECK( col == entry, "wrong-value", "the entry (%d, %lld) is %lld", int( i ), (long long) col, (long long) entry );
    return col;
  }
  static void const * where( C const & c ) { return c.toViewConst().getColumns(); }
};

/// Build from capacities over any previous content, sequentially and with a team.
template< typename K >
void fromCapacities()
{
  using C = typename K::C;
  LeakCheck leaks;
  {
    C seq, par;
    int const rounds = sim::range( 1, 3 );
    Id next = 1;
    for( int round = 0; round < rounds; ++round )
    {
      sim::Span span;
      std::vector< I > const cap = drawCapacities();
      I const n = I( cap.size() );
      sim::log( "round %d: %d parts", round, int( n ) );
      if( n > 1 ) sim::probe( "nontrivial" );
      { MayRelocate reloc; K::template build< Seq >( seq, n, cap.data() ); }
      { MayRelocate reloc; K::template build< Team >( par, n, cap.data() ); }
      SIM_CHECK( K::count( seq ) == n && K::count( par ) == n, "wrong-size", "there are %d and %d parts, expected %d", int( K::count( seq ) ), int( K::count( par ) ), int( n ) );
      for( I i = 0; i < n; ++i )
      {
        SIM_CHECK( K::sizeOf( seq, i ) == 0 && K::sizeOf( par, i ) == 0, "wrong-size", "part %d has %d and %d values after building from capacities", int( i ), int( K::sizeOf( seq, i ) ), int( K::sizeOf( par, i ) ) );
        SIM_CHECK( K::capOf( seq, i ) >= cap[ i ], "wrong-capacity", "part %d has room for %d of %d values (sequential)", int( i ), int( K::capOf( seq, i ) ), int( cap[ i ] ) );
        SIM_CHECK( K::capOf( par, i ) >= cap[ i ], "wrong-capacity", "part %d has room for %d of %d values (parallel)", int( i ), int( K::capOf( par, i ) ), int( cap[ i ] ) );
        SIM_CHECK( K::capOf( par, i ) == K::capOf( seq, i ), "depends-on-policy", "part %d has room for %d values sequentially and for %d in parallel", int( i ), int( K::capOf( seq, i ) ), int( K::capOf( par, i ) ) );
      }
      // appending what was asked for, in any order, finds room
      std::vector< std::vector< Id > > model( n );
      std::vector< I > todo;
      for( I i = 0; i < n; ++i ) for( I k = 0; k < cap[ i ]; ++k ) todo.push_back( i );
      for( int k = int( todo.size() ) - 1; k > 0; --k ) std::swap( todo[ k ], todo[ sim::draw( std::uint32_t( k + 1 ) ) ] );
      std::size_t const stopAfter = sim::chance( 1, 3 ) ? sim::draw( std::uint32_t( todo.size() + 1 ) ) : todo.size();
      void const * const at = K::where( seq ), * const atPar = K::where( par );
      for( std::size_t k = 0; k < stopAfter; ++k )
      {
        for( int which = 0; which < 2; ++which )
        {
          C & c = which ? par : seq;
          K::add( c, todo[ k ], next );
        }
        model[ todo[ k ] ].push_back( next++ );
      }
      SIM_CHECK( K::where( seq ) == at && K::where( par ) == atPar, "needed-more-room", "adding the number of values that was asked for reallocated the values" );
      for( I i = 0; i < n; ++i )
      {
        SIM_CHECK( K::capOf( seq, i ) == K::capOf( par, i ) && K::capOf( par, i ) >= cap[ i ], "wrong-capacity", "the capacity of part %d changed while it was filled", int( i ) );
        for( int which = 0; which < 2; ++which )
        {
          C const & c = which ? par : seq;
          SIM_CHECK( K::sizeOf( c, i ) == I( model[ i ].size() ), "wrong-size", "part %d has %d values, expected %zu", int( i ), int( K::sizeOf( c, i ) ), model[ i ].size() );
          for( I j = 0; j < I( model[ i ].size() ); ++j )
            SIM_CHECK( K::at( c, i, j ) == model[ i ][ j ], "wrong-value", "value (%d, %d) is %lld, expected %lld", int( i ), int( j ), (long long) K::at( c, i, j ), (long long) model[ i ][ j ] );
        }
      }
    }
  }
  leaks.check( "the containers were destroyed" );
}

// ------------------------------------------------------------------ arrays
template< typename T, bool = std::is_arithmetic< T >::value >
struct Zero
{ template< typename V > static bool apply( V const & v ) { v.zero(); return true; } };
template< typename T >
struct Zero< T, false >
{ template< typename V > static bool apply( V const & ) { return false; } };

template< typename A > struct Shape;
template< typename T, typename P, typename IT, template< typename > class B >
struct Shape< Array< T, 1, P, IT, B > >
{ static void resize( Array< T, 1, P, IT, B > & a ) { a.resize( IT( sim::chance( 1, 6 ) ? 0 : sim::range( 1, 40 ) ) ); } };
template< typename T, typename P, typename IT, template< typename > class B >
struct Shape< Array< T, 2, P, IT, B > >
{ static void resize( Array< T, 2, P, IT, B > & a ) { a.resize( sim::range( 0, 7 ), sim::range( 1, 6 ) ); } };
template< typename T, typename P, typename IT, template< typename > class B >
struct Shape< Array< T, 3, P, IT, B > >
{ static void resize( Array< T, 3, P, IT, B > & a ) { a.resize( sim::range( 1, 4 ), sim::range( 0, 4 ), sim::range( 1, 4 ) ); } };

template< typename A >
void fill()
{
  using T = typename A::value_type;
  using E = Elem< T >;
  LeakCheck leaks;
  {
    A guard1, a, guard2, b;
    std::vector< Id > model;
    Id next = 1;
    int const rounds = sim::range( 1, 5 );
    Shape< A >::resize( guard1 );
    Shape< A >::resize( a );
    Shape< A >::resize( guard2 );
    guard1.template setValues< Seq >( E::make( 901 ) );
    guard2.template setValues< Seq >( E::make( 902 ) );
    model.assign( std::size_t( a.size() ), defaultId< T >() );
    for( int round = 0; round < rounds; ++round )
    {
      sim::Span span;
      int const op = int( sim::draw( 7 ) );
      sim::log( "op %d on %d values", op, int( a.size() ) );
      if( a.size() > 1 ) sim::probe( "nontrivial" );
      auto const view = a.toView();
      switch( op )
      {
        case 0:
        {
          T const value( E::make( next ) );
          a.template setValues< Team >( value );
          model.assign( model.size(), next++ );
          break;
        }
        case 1:
        {
          view.template setValues< Team >( E::make( next ) );
          model.assign( model.size(), next++ );
          break;
        }
        case 2:
          if( a.size() )
          { // the value is one of the array's own
            int const at = int( sim::draw( std::uint32_t( a.size() ) ) );
            T const value( a.data()[ at ] );
            view.template setValues< Team >( value );
            model.assign( model.size(), model[ at ] );
          }
          break;
        case 3: case 4:
        {
          b.resize( A::NDIM, a.dims() );
          std::vector< Id > ids;
          for( I k = 0; k < I( b.size() ); ++k ) { b.data()[ k ] = E::make( next ); ids.push_back( next++ ); }
          if( op == 3 ) view.template setValues< Team >( b.toViewConst() );
          else a.template setValues< Team >( b.toViewConst() );
          for( I k = 0; k < I( b.size() ); ++k )
            SIM_CHECK( E::id( b.data()[ k ] ) == ids[ k ], "source-changed", "value %d of the source is %lld, it was %lld", int( k ), (long long) E::id( b.data()[ k ] ), (long long) ids[ k ] );
          model = ids;
          sim::probe( "copied" );
          break;
        }
        case 5:
          if( Zero< T >::apply( view ) ) model.assign( model.size(), 0 );
          break;
        default:
          view.template setValues< Seq >( E::make( next ) );
          model.assign( model.size(), next++ );
      }
      SIM_CHECK( I( a.size() ) == I( model.size() ), "wrong-size", "the array has %d values, expected %zu", int( a.size() ), model.size() );
      for( I k = 0; k < I( a.size() ); ++k )
        SIM_CHECK( E::id( a.data()[ k ] ) == model[ k ], "wrong-value", "value %d is %lld, expected %lld after operation %d", int( k ), (long long) E::id( a.data()[ k ] ), (long long) model[ k ], op );
      for( I k = 0; k < I( guard1.size() ); ++k ) SIM_CHECK( E::id( guard1.data()[ k ] ) == 901, "wrote-outside", "another array changed" );
      for( I k = 0; k < I( guard2.size() ); ++k ) SIM_CHECK( E::id( guard2.data()[ k ] ) == 902, "wrote-outside", "another array changed" );
    }
  }
  leaks.check( "the arrays were destroyed" );
}

// ------------------------------------------------------------------ matrices
template< typename T >
void matrix()
{
  using E = Elem< T >;
  using CRS = CRSMatrix< T, int, I, MallocBuffer >;
  LeakCheck leaks;
  {
    CRS m;
    Id next = 1;
    int const rounds = sim::range( 1, 4 );
    std::vector< std::map< int, Id > > model;
    for( int round = 0; round < rounds; ++round )
    {
      sim::Span span;
      MayRelocate reloc;
      int const op = model.empty() ? 0 : int( sim::draw( 6 ) );
      sim::log( "op %d on %zu rows of %s", op, model.size(), E::name() );
      switch( op )
      {
        case 0: case 1:
        { // take over a pattern, over any previous content
          int const rows = sim::chance( 1, 4 ) ? sim::range( 8, 30 ) : sim::range( 0, 7 ), cols = sim::range( 1, 20 );
          SparsityPattern< int, I, MallocBuffer > p( rows, cols, sim::range( 0, 4 ) );
          model.assign( rows, {} );
          for( int r = 0; r < rows; ++r )
            for( int k = int( sim::draw( 8 ) ); k > 0; --k )
            {
              int const c = int( sim::draw( std::uint32_t( cols ) ) );
              p.insertNonZero( r, c );
              model[ r ][ c ] = 0;
            }
          if( sim::chance( 1, 3 ) ) p.compress();
          if( rows > 1 ) sim::probe( "nontrivial" );
          m.template assimilate< Team >( std::move( p ) );
          SIM_CHECK( p.numRows() == 0, "moved-from-not-empty", "%d rows remain after they were taken over", int( p.numRows() ) );
          sim::probe( "assimilated" );
          break;
        }
        case 2: case 3:
        {
          T const value( E::make( next ) );
          switch( sim::draw( 3 ) )
          {
            case 0: m.template setValues< Team >( value ); break;
            case 1: m.toViewConstSizes().template setValues< Team >( value ); break;
            default: m.toView().template setValues< Team >( value );
          }
          for( auto & row : model ) for( auto & e : row ) e.second = next;
          ++next;
          break;
        }
        case 4:
          if( Zero< T >::apply( m.toViewConstSizes() ) ) for( auto & row : model ) for( auto & e : row ) e.second = 0;
          break;
        default:
          for( std::size_t r = 0; r < model.size(); ++r )
          {
            int const c = int( sim::draw( std::uint32_t( m.numColumns() ) ) );
            if( m.insertNonZero( I( r ), c, E::make( next ) ) ) model[ r ][ c ] = next;
            ++next;
          }
      }
      SIM_CHECK( std::size_t( m.numRows() ) == model.size(), "wrong-size", "the matrix has %d rows, expected %zu", int( m.numRows() ), model.size() );
      for( std::size_t r = 0; r < model.size(); ++r )
      {
        SIM_CHECK( std::size_t( m.numNonZeros( I( r ) ) ) == model[ r ].size(), "wrong-size", "row %zu has %d entries, expected %zu", r, int( m.numNonZeros( I( r ) ) ), model[ r ].size() );
        I k = 0;
        for( auto const & e : model[ r ] )
        {
          SIM_CHECK( m.getColumns( I( r ) )[ k ] == e.first, "wrong-value", "column %d of row %zu is %d, expected %d", int( k ), r, m.getColumns( I( r ) )[ k ], e.first );
          Id const got = E::id( m.getEntries( I( r ) )[ k ] );
          SIM_CHECK( got == e.second, "wrong-value", "entry (%zu, %d) is %lld, expected %lld after operation %d", r, e.first, (long long) got, (long long) e.second, op );
          ++k;
        }
      }
    }
  }
  leaks.check( "the matrix was destroyed" );
}

// ------------------------------------------------------------------ arrays into sets and back
template< typename T >
void intoSets()
{
  using E = Elem< T >;
  using sortedArrayManipulation::Description;
  LeakCheck leaks;
  {
    ArrayOfArrays< T, I, MallocBuffer > a;
    ArrayOfSets< T, I, MallocBuffer > s;
    int const rounds = sim::range( 1, 3 );
    for( int round = 0; round < rounds; ++round )
    {
      sim::Span span;
      std::vector< I > const cap = drawCapacities();
      I const n = I( cap.size() );
      MayRelocate reloc;
      a.template resizeFromCapacities< Team >( n, cap.data() );
      auto const desc = Description( sim::draw( 4 ) );
      std::vector< std::vector< Id > > model( n );
      for( I i = 0; i < n; ++i )
      {
        std::set< Id > unique;
        std::vector< Id > ids;
        for( I k = I( sim::draw( std::uint32_t( cap[ i ] + 1 ) ) ); k > 0; --k ) { Id const id = 1 + Id( sim::draw( 12 ) ); ids.push_back( id ); unique.insert( id ); }
        if( desc == sortedArrayManipulation::SORTED_UNIQUE ) ids.assign( unique.begin(), unique.end() );
        else if( desc == sortedArrayManipulation::UNSORTED_NO_DUPLICATES )
        {
          ids.assign( unique.begin(), unique.end() );
          for( int k = int( ids.size() ) - 1; k > 0; --k ) std::swap( ids[ k ], ids[ sim::draw( std::uint32_t( k + 1 ) ) ] );
        }
        else if( desc == sortedArrayManipulation::SORTED_WITH_DUPLICATES ) std::sort( ids.begin(), ids.end() );
        model[ i ].assign( unique.begin(), unique.end() );
        for( Id const id : ids ) a.emplaceBack( i, E::make( id ) );
      }
      if( n > 1 ) sim::probe( "nontrivial" );
      s.assimilate( std::move( a ), desc );
      sim::probe( "made-sets" );
      SIM_CHECK( a.size() == 0, "moved-from-not-empty", "%d arrays remain", int( a.size() ) );
      auto const check = [ & ]( auto const & c, auto const size )
      {
        SIM_CHECK( c.size() == n, "wrong-size", "there are %d parts, expected %d", int( c.size() ), int( n ) );
        for( I i = 0; i < n; ++i )
        {
          SIM_CHECK( size( i ) == I( model[ i ].size() ), "wrong-size", "part %d has %d values, expected %zu", int( i ), int( size( i ) ), model[ i ].size() );
          for( I j = 0; j < I( model[ i ].size() ); ++j )
            SIM_CHECK( E::id( c( i, j ) ) == model[ i ][ j ], "wrong-value", "value (%d, %d) is %lld, expected %lld", int( i ), int( j ), (long long) E::id( c( i, j ) ), (long long) model[ i ][ j ] );
        }
      };
      check( s, [ & ]( I const i ) { return s.sizeOfSet( i ); } );
      if( sim::chance( 1, 2 ) )
      {
        a.assimilate( std::move( s ) );
        sim::probe( "made-arrays" );
        SIM_CHECK( s.size() == 0, "moved-from-not-empty", "%d sets remain", int( s.size() ) );
        check( a, [ & ]( I const i ) { return a.sizeOfArray( i ); } );
      }
      else if( sim::chance( 1, 2 ) ) a = ArrayOfArrays< T, I, MallocBuffer >();
    }
  }
  leaks.check( "the containers were destroyed" );
}

} // namespace

void scenarioWarmup() {}

void scenario()
{
  switch( sim::draw( 20 ) )
  {
    case 0: fromCapacities< Arrays< std::int64_t > >(); break;
    case 1: fromCapacities< Arrays< Tracked > >(); break;
    case 2: fromCapacities< Arrays< std::string > >(); break;
    case 3: fromCapacities< Sets< double > >(); break;
    case 4: fromCapacities< Sets< Tracked > >(); break;
    case 5: fromCapacities< Patterns >(); break;
    case 6: fromCapacities< Matrices< int > >(); break;
    case 7: fromCapacities< Matrices< Tracked > >(); break;
    case 8: fill< Array< std::int64_t, 1, RAJA::PERM_I, I, MallocBuffer > >(); break;
    case 9: fill< Array< double, 2, RAJA::PERM_IJ, I, MallocBuffer > >(); break;
    case 10: fill< Array< int, 3, RAJA::PERM_KJI, int, MallocBuffer > >(); break;
    case 11: fill< Array< Tracked, 2, RAJA::PERM_JI, I, MallocBuffer > >(); break;
    case 12: fill< Array< std::string, 1, RAJA::PERM_I, I, MallocBuffer > >(); break;
    case 13: fill< Array< Tracked, 1, RAJA::PERM_I, int, MallocBuffer > >(); break;
    case 14: matrix< std::int64_t >(); break;
    case 15: matrix< double >(); break;
    case 16: matrix< Tracked >(); break;
    case 17: matrix< std::string >(); break;
    case 18: intoSets< std::int64_t >(); break;
    default: intoSets< Tracked >(); break;
  }
}
