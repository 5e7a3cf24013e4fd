// C02: threads that modify different inner arrays, sets, rows or slices do not interfere.
#include "common.hpp"
#include "bench_sparse.hpp"

#include <deque>

using namespace LvArray;
using namespace scn;

namespace
{

/// Which thread works on which part; each part belongs to one thread.
struct Teams
{
  int team;
  std::vector< int > owner;
  Teams( int const parts )
  {
    team = sim::range( 2, 5 );
    bool const striped = sim::chance( 1, 2 );
    for( int i = 0; i < parts; ++i ) owner.push_back( striped ? i % team : i * team / parts );
  }
  template< typename F >
  void run( F const & op ) const
  {
    sim::parallel( team, [ & ]( int const t )
    {
      std::vector< int > mine;
      for( std::size_t i = 0; i < owner.size(); ++i ) if( owner[ i ] == t ) mine.push_back( int( i ) );
      if( mine.empty() ) return;
      int const nOps = sim::range( 1, 7 );
      for( int k = 0; k < nOps; ++k )
      {
        sim::Span span;
        op( t, mine[ sim::draw( std::uint32_t( mine.size() ) ) ] );
      }
    } );
  }
};

std::vector< I > drawCapacities( int const parts )
{
  std::vector< I > cap;
  bool const tight = sim::chance( 1, 3 );
  for( int i = 0; i < parts; ++i ) cap.push_back( sim::chance( 1, 6 ) ? 0 : sim::range( 1, tight ? 3 : 12 ) );
  return cap;
}

// ------------------------------------------------------------------ inner arrays
template< typename T >
void arrays()
{
  using E = Elem< T >;
  LeakCheck leaks;
  {
    int const parts = sim::range( 2, 7 );
    std::vector< I > const cap = drawCapacities( parts );
    ArrayOfArrays< T, I, MallocBuffer > a;
    a.template resizeFromCapacities< RAJA::loop_exec >( parts, cap.data() );
    std::vector< std::vector< Id > > m( parts );
    Id seed = 1;
    for( int i = 0; i < parts; ++i )
      for( I k = I( sim::draw( std::uint32_t( cap[ i ] + 1 ) ) ); k > 0; --k ) { m[ i ].push_back( seed ); a.emplaceBack( i, E::make( seed++ ) ); }
    auto const view = a.toView();
    std::vector< Id > next( 8 );
    for( int t = 0; t < 8; ++t ) next[ t ] = 1000 * ( t + 1 );

    auto const check = [ & ]( int const i, char const * const when )
    {
      auto const & x = m[ i ];
      SIM_CHECK( view.sizeOfArray( i ) == I( x.size() ), "wrong-size", "array %d has size %d, expected %zu %s", i, int( view.sizeOfArray( i ) ), x.size(), when );
      for( std::size_t j = 0; j < x.size(); ++j )
        SIM_CHECK( E::id( view( i, I( j ) ) ) == x[ j ], "wrong-value", "value (%d, %zu) is %lld, expected %lld %s", i, j, (long long) E::id( view( i, I( j ) ) ), (long long) x[ j ], when );
    };

    Teams const teams( parts );
    teams.run( [ & ]( int const t, int const i )
    {
      auto & x = m[ i ];
      int const room = int( cap[ i ] ) - int( x.size() ), size = int( x.size() );
      ArrayOfArraysView< T, I const, false, MallocBuffer > const v = view;
      int const op = int( sim::draw( 8 ) );
      sim::log( "thread %d op %d on array %d (%d of %d)", t, op, i, size, int( cap[ i ] ) );
      switch( op )
      {
        case 0:
          if( room ) { Id const n = next[ t ]++; v.emplaceBack( i, E::make( n ) ); x.push_back( n ); }
          break;
        case 1:
        {
          std::deque< T > in;
          for( int k = int( sim::draw( std::uint32_t( room + 1 ) ) ); k > 0; --k ) { in.push_back( E::make( next[ t ] ) ); x.push_back( next[ t ]++ ); }
          v.appendToArray( i, in.begin(), in.end() );
          break;
        }
        case 2:
          if( room )
          {
            int const at = int( sim::draw( std::uint32_t( size + 1 ) ) );
            Id const n = next[ t ]++;
            v.emplace( i, at, E::make( n ) );
            x.insert( x.begin() + at, n );
          }
          break;
        case 3:
        {
          int const at = int( sim::draw( std::uint32_t( size + 1 ) ) );
          std::vector< T > in;
          std::vector< Id > ids;
          for( int k = int( sim::draw( std::uint32_t( room + 1 ) ) ); k > 0; --k ) { in.push_back( E::make( next[ t ] ) ); ids.push_back( next[ t ]++ ); }
          v.insertIntoArray( i, at, in.begin(), in.end() );
          x.insert( x.begin() + at, ids.begin(), ids.end() );
          break;
        }
        case 4: case 5:
          if( size )
          {
            int const at = int( sim::draw( std::uint32_t( size ) ) ), n = sim::range( 1, size - at );
            v.eraseFromArray( i, at, n );
            x.erase( x.begin() + at, x.begin() + at + n );
          }
          break;
        case 6:
          for( int j = 0; j < size; ++j )
          {
            Id const n = next[ t ]++;
            if( j % 2 ) v( i, j ) = E::make( n ); else v[ i ][ j ] = E::make( n );
            x[ j ] = n;
          }
          break;
        default:
          if( room ) { Id const n = next[ t ]++; v.template emplaceBackAtomic< RAJA::omp_atomic >( i, E::make( n ) ); x.push_back( n ); }
      }
      if( room == 0 && size ) sim::probe( "part-was-full" );
      check( i, "while other threads work on other arrays" );
    } );
    sim::probe( "nontrivial" );
    for( int i = 0; i < parts; ++i )
    {
      check( i, "after all threads finished" );
      SIM_CHECK( a.capacityOfArray( i ) == cap[ i ], "wrong-capacity", "the capacity of array %d changed", i );
    }
  }
  leaks.check( "the container was destroyed" );
}

// ------------------------------------------------------------------ sets
template< typename T >
void sets()
{
  using E = Elem< T >;
  LeakCheck leaks;
  {
    int const parts = sim::range( 2, 7 );
    std::vector< I > const cap = drawCapacities( parts );
    ArrayOfSets< T, I, MallocBuffer > a;
    a.template resizeFromCapacities< RAJA::loop_exec >( parts, cap.data() );
    std::vector< std::set< Id > > m( parts );
    for( int i = 0; i < parts; ++i )
      for( I k = I( sim::draw( std::uint32_t( cap[ i ] + 1 ) ) ); k > 0; --k ) { Id const n = 1 + sim::draw( 30 ); m[ i ].insert( n ); a.insertIntoSet( i, E::make( n ) ); }
    auto const view = a.toView();
    auto const check = [ & ]( int const i, char const * const when )
    {
      auto const & x = m[ i ];
      SIM_CHECK( view.sizeOfSet( i ) == I( x.size() ), "wrong-size", "set %d has size %d, expected %zu %s", i, int( view.sizeOfSet( i ) ), x.size(), when );
      I j = 0;
      for( Id const n : x )
      {
        SIM_CHECK( E::id( view( i, j ) ) == n, "wrong-value", "value (%d, %d) is %lld, expected %lld %s", i, int( j ), (long long) E::id( view( i, j ) ), (long long) n, when );
        ++j;
      }
    };
    Teams const teams( parts );
    teams.run( [ & ]( int const t, int const i )
    {
      auto & x = m[ i ];
      int const room = int( cap[ i ] ) - int( x.size() );
      ArrayOfSetsView< T, I const, MallocBuffer > const v = view;
      int const op = int( sim::draw( 5 ) );
      sim::log( "thread %d op %d on set %d (%zu of %d)", t, op, i, x.size(), int( cap[ i ] ) );
      switch( op )
      {
        case 0:
        {
          Id const n = 1 + sim::draw( 30 );
          if( room == 0 && !x.count( n ) ) break;
          bool const fresh = x.insert( n ).second;
          SIM_CHECK( v.insertIntoSet( i, E::make( n ) ) == fresh, "wrong-answer", "insertIntoSet of %lld answers %d", (long long) n, int( !fresh ) );
          break;
        }
        case 1:
        {
          std::set< Id > in;
          int fresh = 0;
          for( int k = sim::range( 0, 9 ); k > 0; --k )
          {
            Id const n = 1 + sim::draw( 30 );
            if( in.count( n ) ) continue;
            if( !x.count( n ) ) { if( fresh == room ) continue; ++fresh; }
            in.insert( n );
          }
          std::vector< T > values;
          for( Id const n : in ) values.push_back( E::make( n ) );
          I const got = v.insertIntoSet( i, values.begin(), values.end() );
          SIM_CHECK( got == fresh, "wrong-answer", "inserting %d new values answers %d", fresh, int( got ) );
          x.insert( in.begin(), in.end() );
          break;
        }
        case 2:
        {
          Id const n = 1 + sim::draw( 30 );
          bool const had = x.erase( n ) == 1;
          SIM_CHECK( v.removeFromSet( i, E::make( n ) ) == had, "wrong-answer", "removeFromSet of %lld answers %d", (long long) n, int( !had ) );
          break;
        }
        case 3:
        {
          std::set< Id > in;
          for( int k = sim::range( 0, 9 ); k > 0; --k ) in.insert( 1 + sim::draw( 30 ) );
          std::vector< T > values;
          int had = 0;
          for( Id const n : in ) { values.push_back( E::make( n ) ); had += int( x.erase( n ) ); }
          I const got = v.removeFromSet( i, values.begin(), values.end() );
          SIM_CHECK( got == had, "wrong-answer", "removing %d present values answers %d", had, int( got ) );
          break;
        }
        default:
        {
          Id const n = 1 + sim::draw( 30 );
          SIM_CHECK( v.contains( i, E::make( n ) ) == ( x.count( n ) == 1 ), "wrong-answer", "contains( %lld ) is wrong", (long long) n );
        }
      }
      if( room == 0 && !x.empty() ) sim::probe( "part-was-full" );
      check( i, "while other threads work on other sets" );
    } );
    sim::probe( "nontrivial" );
    for( int i = 0; i < parts; ++i )
    {
      check( i, "after all threads finished" );
      SIM_CHECK( a.capacityOfSet( i ) == cap[ i ], "wrong-capacity", "the capacity of set %d changed", i );
    }
    a.consistencyCheck();
  }
  leaks.check( "the container was destroyed" );
}

// ------------------------------------------------------------------ rows
template< typename T, typename COL, bool MATRIX > struct Rows;

template< typename T, typename COL, bool MATRIX >
void rows()
{
  using MAT = std::conditional_t< MATRIX, CRSMatrix< T, COL, I, MallocBuffer >, SparsityPattern< COL, I, MallocBuffer > >;
  LeakCheck leaks;
  {
    int const parts = sim::range( 2, 6 ), ncols = sim::range( 3, 40 );
    std::vector< I > cap = drawCapacities( parts );
    for( auto & c : cap ) c = std::min< I >( c, ncols );
    MAT a;
    a.template resizeFromRowCapacities< RAJA::loop_exec >( parts, ncols, cap.data() );
    std::vector< std::map< long, Id > > m( parts );
    std::vector< Id > next( 8 );
    for( int t = 0; t < 8; ++t ) next[ t ] = 1000 * ( t + 1 );
    auto const view = a.toView();
    auto const check = [ & ]( int const i, char const * const when )
    {
      auto const & x = m[ i ];
      SIM_CHECK( view.numNonZeros( i ) == I( x.size() ), "wrong-size", "row %d has %d non zeros, expected %zu %s", i, int( view.numNonZeros( i ) ), x.size(), when );
      I j = 0;
      for( auto const & e : x )
      {
        SIM_CHECK( long( view.getColumns( i )[ j ] ) == e.first, "wrong-column", "column (%d, %d) is %ld, expected %ld %s", i, int( j ), long( view.getColumns( i )[ j ] ), e.first, when );
        ++j;
      }
      Rows< T, COL, MATRIX >::check( view, i, x, when );
    };
    Teams const teams( parts );
    teams.run( [ & ]( int const t, int const i )
    {
      auto & x = m[ i ];
      int const room = int( cap[ i ] ) - int( x.size() );
      auto const v = view;
      int const op = int( sim::draw( 7 ) );
      sim::log( "thread %d op %d on row %d (%zu of %d)", t, op, i, x.size(), int( cap[ i ] ) );
      switch( op )
      {
        case 0: case 1:
        {
          long const c = long( sim::draw( std::uint32_t( ncols ) ) );
          if( room == 0 && !x.count( c ) ) break;
          Id const n = MATRIX ? next[ t ]++ : 0;
          bool const fresh = x.emplace( c, n ).second;
          SIM_CHECK( ( Rows< T, COL, MATRIX >::insert( v, i, COL( c ), n ) == fresh ), "wrong-answer", "inserting column %ld answers %d", c, int( !fresh ) );
          break;
        }
        case 2:
        {
          std::map< long, Id > in;
          int fresh = 0;
          for( int k = sim::range( 0, 9 ); k > 0; --k )
          {
            long const c = long( sim::draw( std::uint32_t( ncols ) ) );
            if( in.count( c ) ) continue;
            if( !x.count( c ) ) { if( fresh == room ) continue; ++fresh; }
            in[ c ] = MATRIX ? next[ t ]++ : 0;
          }
          std::vector< COL > cols;
          std::vector< Id > ids;
          for( auto const & e : in ) { cols.push_back( COL( e.first ) ); ids.push_back( e.second ); }
          I const got = Rows< T, COL, MATRIX >::insert( v, i, cols, ids );
          SIM_CHECK( got == fresh, "wrong-answer", "inserting %d new columns answers %d", fresh, int( got ) );
          x.insert( in.begin(), in.end() );
          break;
        }
        case 3:
        {
          long const c = long( sim::draw( std::uint32_t( ncols ) ) );
          bool const had = x.erase( c ) == 1;
          SIM_CHECK( v.removeNonZero( i, COL( c ) ) == had, "wrong-answer", "removing column %ld answers %d", c, int( !had ) );
          break;
        }
        case 4:
        {
          std::set< long > in;
          for( int k = sim::range( 0, 9 ); k > 0; --k ) in.insert( long( sim::draw( std::uint32_t( ncols ) ) ) );
          std::vector< COL > cols;
          int had = 0;
          for( long const c : in ) { cols.push_back( COL( c ) ); had += int( x.erase( c ) ); }
          I const got = Rows< T, COL, MATRIX >::remove( v, i, cols );
          SIM_CHECK( got == had, "wrong-answer", "removing %d present columns answers %d", had, int( got ) );
          break;
        }
        case 5:
          Rows< T, COL, MATRIX >::modify( v, i, x, next[ t ] );
          break;
        default:
        {
          long const c = long( sim::draw( std::uint32_t( ncols ) ) );
          SIM_CHECK( v.empty( i, COL( c ) ) == ( x.count( c ) == 0 ), "wrong-answer", "empty( %d, %ld ) is wrong", i, c );
          SIM_CHECK( v.empty( i ) == x.empty(), "wrong-answer", "empty( %d ) is wrong", i );
        }
      }
      if( room == 0 && !x.empty() ) sim::probe( "part-was-full" );
      check( i, "while other threads work on other rows" );
    } );
    sim::probe( "nontrivial" );
    for( int i = 0; i < parts; ++i )
    {
      check( i, "after all threads finished" );
      SIM_CHECK( a.nonZeroCapacity( i ) == cap[ i ], "wrong-capacity", "the capacity of row %d changed", i );
    }
  }
  leaks.check( "the container was destroyed" );
}

template< typename T, typename COL >
struct Rows< T, COL, true >
{
  using E = Elem< T >;
  template< typename V > static bool insert( V const & v, I const i, COL const c, Id const n ) { return v.insertNonZero( i, c, E::make( n ) ); }
  template< typename V > static I insert( V const & v, I const i, std::vector< COL > const & cols, std::vector< Id > const & ids )
  {
    std::vector< T > entries;
    for( Id const n : ids ) entries.push_back( E::make( n ) );
    return v.insertNonZeros( i, cols.data(), entries.data(), I( cols.size() ) );
  }
  template< typename V > static I remove( V const & v, I const i, std::vector< COL > const & cols ) { return v.removeNonZeros( i, cols.data(), I( cols.size() ) ); }
  template< typename V > static void modify( V const & v, I const i, std::map< long, Id > & x, Id & next )
  {
    std::vector< COL > cols;
    std::vector< T > add;
    I j = 0;
    bool const assign = sim::chance( 1, 2 );
    for( auto & e : x )
    {
      Id const n = next++;
      if( assign ) { v.getEntries( i )[ j ] = E::make( n ); e.second = n; }
      else { cols.push_back( COL( e.first ) ); add.push_back( E::make( n ) ); e.second += n; }
      ++j;
    }
    v.template addToRow< RAJA::seq_atomic >( i, cols.data(), add.data(), I( cols.size() ) );
  }
  template< typename V > static void check( V const & v, I const i, std::map< long, Id > const & x, char const * const when )
  {
    I j = 0;
    for( auto const & e : x )
    {
      Id const got = E::id( v.getEntries( i )[ j ] );
      SIM_CHECK( got == e.second, "wrong-value", "entry (%d, %ld) is %lld, expected %lld %s", int( i ), e.first, (long long) got, (long long) e.second, when );
      ++j;
    }
  }
};

template< typename T, typename COL >
struct Rows< T, COL, false >
{
  template< typename V > static bool insert( V const & v, I const i, COL const c, Id const ) { return v.insertNonZero( i, c ); }
  template< typename V > static I insert( V const & v, I const i, std::vector< COL > const & cols, std::vector< Id > const & )
  { return v.insertNonZeros( i, cols.begin(), cols.end() ); }
  template< typename V > static I remove( V const & v, I const i, std::vector< COL > const & cols ) { return v.removeNonZeros( i, cols.begin(), cols.end() ); }
  template< typename V > static void modify( V const &, I const, std::map< long, Id > &, Id & ) {}
  template< typename V > static void check( V const &, I const, std::map< long, Id > const &, char const * const ) {}
};

// ------------------------------------------------------------------ slices of arrays
template< typename T, typename PERM >
void slices()
{
  using E = Elem< T >;
  LeakCheck leaks;
  {
    int const n0 = sim::range( 2, 6 ), n1 = sim::range( 1, 4 ), n2 = sim::range( 1, 4 );
    Array< T, 3, PERM, I, MallocBuffer > a( n0, n1, n2 );
    std::vector< std::vector< Id > > m( n0, std::vector< Id >( n1 * n2, 0 ) );
    auto const view = a.toView();
    std::vector< Id > next( 8 );
    for( int t = 0; t < 8; ++t ) next[ t ] = 1000 * ( t + 1 );
    auto const check = [ & ]( int const i )
    {
      for( int j = 0; j < n1; ++j )
        for( int k = 0; k < n2; ++k )
        {
          Id const got = E::id( view( i, j, k ) );
          SIM_CHECK( got == m[ i ][ j * n2 + k ], "wrong-value", "value (%d, %d, %d) is %lld, expected %lld", i, j, k, (long long) got, (long long) m[ i ][ j * n2 + k ] );
        }
    };
    Teams const teams( n0 );
    teams.run( [ & ]( int const t, int const i )
    {
      auto const v = view;
      int const op = int( sim::draw( 4 ) );
      sim::log( "thread %d op %d on slice %d", t, op, i );
      switch( op )
      {
        case 0:
        {
          auto const s = v[ i ];
          for( int j = 0; j < n1; ++j ) for( int k = 0; k < n2; ++k ) { Id const n = next[ t ]++; s( j, k ) = E::make( n ); m[ i ][ j * n2 + k ] = n; }
          break;
        }
        case 1:
        {
          int const j = int( sim::draw( std::uint32_t( n1 ) ) ), k = int( sim::draw( std::uint32_t( n2 ) ) );
          Id const n = next[ t ]++;
          v( i, j, k ) = E::make( n );
          m[ i ][ j * n2 + k ] = n;
          break;
        }
        case 2:
        {
          int const j = int( sim::draw( std::uint32_t( n1 ) ) );
          auto const s = v[ i ][ j ];
          for( int k = 0; k < n2; ++k ) { Id const n = next[ t ]++; s[ k ] = E::make( n ); m[ i ][ j * n2 + k ] = n; }
          break;
        }
        default:
        {
          auto const s = v.toSliceConst()[ i ];
          for( int j = 0; j < n1; ++j ) for( int k = 0; k < n2; ++k ) (void) E::id( s( j, k ) );
        }
      }
      check( i );
    } );
    sim::probe( "nontrivial" );
    for( int i = 0; i < n0; ++i ) check( i );
  }
  leaks.check( "the array was destroyed" );
}

} // namespace

void scenarioWarmup() {}

void scenario()
{
  switch( sim::draw( 14 ) )
  {
    case 0: arrays< std::int64_t >(); break;
    case 1: arrays< Tracked >(); break;
    case 2: arrays< std::string >(); break;
    case 3: arrays< int >(); break;
    case 4: sets< std::int64_t >(); break;
    case 5: sets< Tracked >(); break;
    case 6: sets< std::string >(); break;
    case 7: rows< double, int, true >(); break;
    case 8: rows< Tracked, I, true >(); break;
    case 9: rows< std::int64_t, signed char, true >(); break;
    case 10: rows< int, I, false >(); break;
    case 11: rows< int, signed char, false >(); break;
    case 12: slices< std::int64_t, RAJA::PERM_IJK >(); break;
    default: slices< Tracked, RAJA::PERM_KIJ >(); break;
  }
}
