// C03: concurrent additive assembly into a compressed row matrix sums exactly.
#include "common.hpp"
#include "bench_sparse.hpp"

#include <cstring>

using namespace LvArray;
using namespace scn;

namespace
{

/// The raw content of a buffer of the matrix, used slots and unused ones.
struct Snapshot
{
  void const * p;
  std::string bytes;
  Snapshot( void const * const q, std::size_t const n ): p( q )
  { sim::NoTrack quiet; bytes.resize( n ); if( n ) sim::rawCopy( &bytes[ 0 ], q, n ); }
  bool same() const
  {
    sim::NoTrack quiet;
    std::string now( bytes.size(), '\0' );
    if( !now.empty() ) sim::rawCopy( &now[ 0 ], p, now.size() );
    return now == bytes;
  }
};

template< typename T, typename COL >
struct Contribution
{
  int row;
  int strategy;            // 0: addToRow, 1: linear, 2: binary, 3: unsorted
  std::vector< COL > cols;
  std::vector< T > vals;
};

template< typename ATOMIC, typename VIEW, typename T, typename COL, typename IT >
void add( VIEW const & v, Contribution< T, COL > const & c )
{
  IT const row = IT( c.row ), n = IT( c.cols.size() );
  switch( c.strategy )
  {
    case 0: v.template addToRow< ATOMIC >( row, c.cols.data(), c.vals.data(), n ); break;
    case 1: v.template addToRowLinearSearch< ATOMIC >( row, c.cols.data(), c.vals.data(), n ); break;
    case 2: v.template addToRowBinarySearch< ATOMIC >( row, c.cols.data(), c.vals.data(), n ); break;
    default: v.template addToRowBinarySearchUnsorted< ATOMIC >( row, c.cols.data(), c.vals.data(), n ); break;
  }
}

template< typename T, typename COL, typename IT, typename ATOMIC >
void run()
{
  using E = Elem< T >;
  using CRS = CRSMatrix< T, COL, IT, MallocBuffer >;
  LeakCheck leaks;
  {
    int const rows = sim::range( 1, 4 );
    bool const wide = sim::chance( 1, 4 );
    long const ncols = sizeof( COL ) == 1 ? sim::range( 1, 127 ) : wide ? sim::range( 60, 400 ) : sim::range( 1, 30 );
    CRS m{ IT( rows ), IT( ncols ), IT( 0 ) };
    std::vector< std::map< long, Id > > model( rows );
    for( int r = 0; r < rows; ++r )
    {
      int nnz = int( sim::draw( std::uint32_t( std::min< long >( ncols, wide && r == 0 ? 130 : 20 ) + 1 ) ) );
      if( wide && r == 0 && sim::chance( 1, 2 ) ) nnz = int( std::min< long >( ncols, sim::range( 60, 70 ) ) ); // around the limit of the search strategies
      std::set< long > chosen;
      bool const run = sim::chance( 1, 3 );
      long const first = long( sim::draw( std::uint32_t( ncols - nnz + 1 ) ) );
      if( run ) { for( int k = 0; k < nnz; ++k ) chosen.insert( first + k ); }
      else { for( int k = 0; k < 2 * nnz && int( chosen.size() ) < nnz; ++k ) chosen.insert( long( sim::draw( std::uint32_t( ncols ) ) ) ); }
      std::vector< COL > cols;
      std::vector< T > vals;
      for( long const c : chosen )
      {
        Id const v = Id( sim::draw( 1000 ) );
        model[ r ][ c ] = v;
        cols.push_back( COL( c ) );
        vals.push_back( E::make( v ) );
      }
      MayRelocate reloc;
      m.reserveNonZeros( IT( r ), IT( cols.size() + sim::draw( 4 ) ) );
      m.insertNonZeros( IT( r ), cols.data(), vals.data(), IT( cols.size() ) );
    }
    if( sim::chance( 1, 3 ) ) { MayRelocate reloc; m.compress(); }

    // the contributions
    std::vector< Contribution< T, COL > > work;
    std::vector< std::map< long, Id > > expect( model );
    bool const focus = sim::chance( 1, 2 );
    int const hot = int( sim::draw( std::uint32_t( rows ) ) );
    Id next = 1;
    while( sim::more( 10 ) )
    {
      Contribution< T, COL > c;
      c.row = focus ? hot : int( sim::draw( std::uint32_t( rows ) ) );
      c.strategy = int( sim::draw( 4 ) );
      auto const & row = model[ c.row ];
      std::vector< long > pattern;
      for( auto const & e : row ) pattern.push_back( e.first );
      int const size = int( pattern.size() );
      int n = int( sim::draw( std::uint32_t( size + 1 ) ) );
      if( size > 64 && sim::chance( 1, 2 ) ) n = int( sim::range( size / 4 - 2, size / 4 + 2 ) );
      std::set< int > at;
      switch( sim::draw( 4 ) )
      {
        case 0: for( int k = 0; k < n; ++k ) at.insert( size - 1 - k ); break;        // the end of the row
        case 1: for( int k = 0; k < n; ++k ) at.insert( k ); break;                   // the beginning
        default: for( int k = 0; k < n; ++k ) at.insert( int( sim::draw( std::uint32_t( size ) ) ) ); break;
      }
      if( size && sim::chance( 1, 4 ) ) at.insert( size - 1 );
      for( int const p : at ) c.cols.push_back( COL( pattern[ p ] ) );
      if( c.strategy == 3 )
      {
        if( !at.empty() && sim::chance( 1, 3 ) ) { c.cols.push_back( c.cols[ sim::draw( std::uint32_t( c.cols.size() ) ) ] ); sim::probe( "column-twice" ); }
        for( int k = int( c.cols.size() ) - 1; k > 0; --k ) std::swap( c.cols[ k ], c.cols[ sim::draw( std::uint32_t( k + 1 ) ) ] );
      }
      for( COL const col : c.cols )
      {
        Id const v = next++;
        c.vals.push_back( E::make( v ) );
        expect[ c.row ][ long( col ) ] += v;
      }
      if( c.strategy == 0 ) sim::probe( n < size / 4 && size > 64 ? "chose-binary-search" : "chose-linear-search" );
      work.push_back( std::move( c ) );
    }

    std::size_t total = 0;
    for( int r = 0; r < rows; ++r ) total += std::size_t( m.nonZeroCapacity( IT( r ) ) );
    Snapshot const offsets( m.toViewConst().getOffsets(), sizeof( IT ) * ( rows + 1 ) ), sizes( m.toViewConst().getSizes(), sizeof( IT ) * rows ),
    columns( m.toViewConst().getColumns(), sizeof( COL ) * total );
    std::vector< Snapshot > gaps;
    for( int r = 0; r < rows; ++r )
    {
      IT const nnz = m.numNonZeros( IT( r ) ), cap = m.nonZeroCapacity( IT( r ) );
      gaps.push_back( Snapshot( m.getEntries( IT( r ) ).dataIfContiguous() + nnz, sizeof( T ) * std::size_t( cap - nnz ) ) );
    }

    int const count = int( work.size() );
    sim::log( "%d contributions to %dx%ld %s", count, rows, ncols, E::name() );
    Contribution< T, COL > const * const w = work.data();
    bool const parallel = !std::is_same< ATOMIC, RAJA::seq_atomic >::value;
    if( parallel && count > 1 ) sim::probe( "nontrivial" );
    auto const view = m.toViewConstSizes();
    auto const full = m.toView();
    switch( parallel ? 1 + sim::draw( 3 ) : 0 )
    {
      case 0:
        for( int k = 0; k < count; ++k ) add< ATOMIC, decltype( view ), T, COL, IT >( view, w[ k ] );
        if( count > 1 ) sim::probe( "nontrivial" );
        break;
      case 1:
        RAJA::forall< RAJA::omp_parallel_for_exec >( RAJA::TypedRangeSegment< int >( 0, count ), [ view, w ]( int const k )
        { add< ATOMIC, decltype( view ), T, COL, IT >( view, w[ k ] ); } );
        break;
      case 2:
      {
        int const team = sim::range( 1, 6 );
        sim::parallel( team, [ & ]( int const t )
        {
          auto const mine = full;
          for( int k = t; k < count; k += team ) add< ATOMIC, decltype( full ), T, COL, IT >( mine, w[ k ] );
        } );
        break;
      }
      default:
      { // through the owner
        int const team = sim::range( 1, 6 );
        sim::parallel( team, [ & ]( int const t )
        { for( int k = t * count / team; k < ( t + 1 ) * count / team; ++k ) add< ATOMIC, CRS, T, COL, IT >( m, w[ k ] ); } );
      }
    }

    SIM_CHECK( offsets.same() && sizes.same() && columns.same(), "pattern-changed", "adding changed the sparsity pattern" );
    for( int r = 0; r < rows; ++r )
    {
      SIM_CHECK( std::size_t( m.numNonZeros( IT( r ) ) ) == expect[ r ].size(), "pattern-changed", "row %d has %d non zeros, expected %zu", r, int( m.numNonZeros( IT( r ) ) ), expect[ r ].size() );
      int k = 0;
      for( auto const & e : expect[ r ] )
      {
        SIM_CHECK( long( m.getColumns( IT( r ) )[ k ] ) == e.first, "pattern-changed", "row %d column %d is %ld, expected %ld", r, k, long( m.getColumns( IT( r ) )[ k ] ), e.first );
        Id const got = E::id( m.getEntries( IT( r ) )[ k ] );
        SIM_CHECK( got == e.second, "wrong-sum", "entry (%d, %ld) is %lld, the contributions sum to %lld (it was %lld)", r, e.first, (long long) got, (long long) e.second, (long long) model[ r ][ e.first ] );
        ++k;
      }
      SIM_CHECK( gaps[ r ].same(), "wrote-outside", "adding wrote to the unused room behind row %d", r );
    }
  }
  leaks.check( "the matrix was destroyed" );
}

} // namespace

void scenarioWarmup() {}

void scenario()
{
  switch( sim::draw( 8 ) )
  {
    case 0: run< std::int64_t, I, I, RAJA::omp_atomic >(); break;
    case 1: run< double, int, int, RAJA::builtin_atomic >(); break;
    case 2: run< double, I, I, RAJA::auto_atomic >(); break;
    case 3: run< int, int, I, RAJA::omp_atomic >(); break;
    case 4: run< std::int64_t, signed char, int, RAJA::omp_atomic >(); break;
    case 5: run< double, long long, I, RAJA::omp_atomic >(); break;
    case 6: run< std::int64_t, unsigned, int, RAJA::builtin_atomic >(); break;
    default: run< Tracked, I, I, RAJA::seq_atomic >(); break;
  }
}
