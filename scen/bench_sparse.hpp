// Random valid histories on sparsity patterns and compressed row matrices, compared with a vector of maps.
#pragma once
#include "bench_ragged.hpp"

namespace scn
{

inline Tracked & operator+=( Tracked & a, Tracked const & b )
{
  Id const x = Tracked::read( b, "added" );
  a.v = Tracked::read( a, "added to" ) + x;
  return a;
}

inline Triple & operator+=( Triple & x, Triple const & y )
{
  x.a += y.a; x.b += y.b; x.c += y.c;
  return x;
}

/// T is the entry type; COL the column type. With MATRIX false only the pattern is simulated.
template< typename T, typename COL, typename IT, bool MATRIX >
struct SparseBench
{
  using CRS = LvArray::CRSMatrix< T, COL, IT, LvArray::MallocBuffer >;
  using SP = LvArray::SparsityPattern< COL, IT, LvArray::MallocBuffer >;
  using MAT = std::conditional_t< MATRIX, CRS, SP >;
  using E = Elem< T >;
  using Row = std::map< long, Id >;
  static constexpr bool ARITHMETIC = std::is_arithmetic< T >::value;
  static constexpr int K = 2;
  static constexpr int MAXROWS = 6;

  MAT a[ K ];
  std::vector< Row > m[ K ];
  long cols[ K ] = { 0, 0 };
  std::vector< IT > asked[ K ];
  IT rowsAsked[ K ] = { 0, 0 };
  IT valuesAsked[ K ] = { 0, 0 };
  Id next = 1;
  int me;
  bool wide;

  explicit SparseBench( int const caller ): me( caller ) { next = 1 + 1000 * caller; wide = sim::chance( 1, 6 ); }

  int maxNnz() const { return wide ? 110 : 14; }
  long maxCols() const { return wide ? 120 : ( sizeof( COL ) == 1 ? 127 : 40 ); }
  int capOf( int const k, int const i ) { return int( a[ k ].nonZeroCapacity( IT( i ) ) ); }
  long drawCol( int const k ) { return long( sim::draw( std::uint32_t( cols[ k ] ) ) ); }
  void show( int const k, char const * const what, long const x, long const y=0, long const z=0 )
  { sim::log( "%d: sparse%d(%zux%ld of %s) %s %ld %ld %ld", me, k, m[ k ].size(), cols[ k ], E::name(), what, x, y, z ); }

  std::vector< COL > drawCols( int const k, Row const & row, int const limit )
  {
    std::set< long > r;
    int fresh = 0;
    auto const add = [ & ]( long const c )
    {
      if( c < 0 || c >= cols[ k ] || r.count( c ) ) return;
      if( !row.count( c ) ) { if( fresh >= limit ) return; ++fresh; }
      r.insert( c );
    };
    if( cols[ k ] > 0 )
    {
      switch( sim::draw( wide ? 9 : 4 ) )
      {
        case 0: while( sim::more( 4 ) ) add( drawCol( k ) ); break;
        case 1:
        {
          long const from = drawCol( k );
          int const n = sim::range( 0, 7 );
          for( long c = from; c < from + n; ++c ) add( c );
          break;
        }
        case 2:
          for( auto const & e : row ) if( sim::chance( 1, 2 ) ) add( e.first );
          if( sim::chance( 1, 2 ) ) add( drawCol( k ) );
          break;
        case 3:
          add( 0 ); add( cols[ k ] - 1 );
          if( !row.empty() ) { add( row.begin()->first - 1 ); add( row.rbegin()->first + 1 ); }
          break;
        default:
        {
          int const stride = sim::range( 1, 2 );
          for( long c = 0; c < cols[ k ]; c += stride ) add( c );
        }
      }
    }
    std::vector< COL > v;
    for( long const c : r ) v.push_back( COL( c ) );
    return v;
  }

  // ------------------------------------------------------------------ the operations both classes have, by overload
  template< typename X > static bool ins( X && x, IT const i, COL const c, Id const id, std::true_type ) { return x.insertNonZero( i, c, E::make( id ) ); }
  template< typename X > static bool ins( X && x, IT const i, COL const c, Id const, std::false_type ) { return x.insertNonZero( i, c ); }

  template< typename X > static long insMany( X && x, IT const i, std::vector< COL > const & c, Id const first, std::true_type )
  {
    std::vector< T > v;
    v.reserve( c.size() );
    for( std::size_t j = 0; j < c.size(); ++j ) v.push_back( E::make( first + Id( j ) ) );
    return long( x.insertNonZeros( i, c.data(), v.data(), IT( c.size() ) ) );
  }
  template< typename X > static long insMany( X && x, IT const i, std::vector< COL > const & c, Id const, std::false_type )
  {
    if( sim::chance( 1, 2 ) ) { std::set< COL > const s( c.begin(), c.end() ); return long( x.insertNonZeros( i, s.begin(), s.end() ) ); }
    return long( x.insertNonZeros( i, c.data(), c.data() + c.size() ) );
  }
  template< typename X > static long remMany( X && x, IT const i, std::vector< COL > const & c, std::true_type )
  { return long( x.removeNonZeros( i, c.data(), IT( c.size() ) ) ); }
  template< typename X > static long remMany( X && x, IT const i, std::vector< COL > const & c, std::false_type )
  {
    if( sim::chance( 1, 2 ) ) { std::set< COL > const s( c.begin(), c.end() ); return long( x.removeNonZeros( i, s.begin(), s.end() ) ); }
    return long( x.removeNonZeros( i, c.data(), c.data() + c.size() ) );
  }
  using Tag = std::integral_constant< bool, MATRIX >;

  void outerStep( int const k )
  {
    MayRelocate reloc;
    MAT & x = a[ k ];
    auto & v = m[ k ];
    int const n = int( v.size() );
    long highest = -1;
    for( Row const & r : v ) if( !r.empty() ) highest = std::max( highest, r.rbegin()->first );
    switch( sim::draw( 13 ) )
    {
      case 0: case 1: case 2: case 3:
      {
        int const r = sim::range( 0, MAXROWS );
        long const c = highest + 1 + long( sim::draw( std::uint32_t( maxCols() - highest ) ) );
        int const cap = sim::chance( 1, 2 ) ? 0 : sim::range( 0, 6 );
        show( k, "resize", r, c, cap );
        if( r < n ) sim::probe( "shrunk" );
        x.resize( IT( r ), IT( c ), IT( cap ) );
        v.resize( std::size_t( r ) );
        cols[ k ] = c;
        asked[ k ].resize( std::size_t( r ), IT( cap ) );
        break;
      }
      case 4:
      {
        int const r = sim::range( 0, MAXROWS );
        long const c = long( sim::draw( std::uint32_t( maxCols() + 1 ) ) );
        std::vector< IT > caps;
        for( int i = 0; i < r; ++i ) caps.push_back( IT( sim::range( 0, 8 ) ) );
        show( k, "resizeFromRowCapacities", r, c );
        if( sim::chance( 1, 2 ) ) x.template resizeFromRowCapacities< RAJA::seq_exec >( IT( r ), IT( c ), caps.data() );
        else x.template resizeFromRowCapacities< RAJA::omp_parallel_for_exec >( IT( r ), IT( c ), caps.data() );
        v.assign( std::size_t( r ), {} );
        cols[ k ] = c;
        asked[ k ] = caps;
        for( int i = 0; i < r; ++i )
          SIM_CHECK( capOf( k, i ) == caps[ std::size_t( i ) ], "wrong-capacity", "row %d has capacity %d, asked for %ld", i, capOf( k, i ), long( caps[ std::size_t( i ) ] ) );
        sim::probe( "from-capacities" );
        break;
      }
      case 5:
        show( k, "compress", 0 );
        x.compress();
        for( int i = 0; i < n; ++i )
        {
          asked[ k ][ std::size_t( i ) ] = 0;
          SIM_CHECK( capOf( k, i ) == int( v[ std::size_t( i ) ].size() ), "room-left", "row %d has capacity %d and size %zu after compressing", i, capOf( k, i ), v[ std::size_t( i ) ].size() );
        }
        sim::probe( "compressed" );
        break;
      case 6:
      {
        int const c = sim::range( 0, 100 );
        show( k, "reserveNonZeros", c );
        x.reserveNonZeros( IT( c ) );
        valuesAsked[ k ] = std::max( valuesAsked[ k ], IT( c ) );
        break;
      }
      case 7:
      {
        int const j = int( sim::draw( K ) );
        show( k, "copy assigned from", j );
        x = static_cast< MAT const & >( a[ j ] );
        if( j != k ) { v = m[ j ]; asked[ k ].assign( v.size(), 0 ); cols[ k ] = cols[ j ]; }
        else sim::probe( "self-assignment" );
        break;
      }
      case 8: case 9:
      {
        int const j = 1 - k;
        switch( sim::draw( 4 ) )
        {
          case 0:
            show( k, "move assigned from", j );
            x = std::move( a[ j ] );
            SIM_CHECK( a[ j ].numRows() == 0 && a[ j ].numColumns() == 0, "moved-from-not-empty", "%d rows, %d columns after moving out", int( a[ j ].numRows() ), int( a[ j ].numColumns() ) );
            v = m[ j ]; m[ j ].clear();
            cols[ k ] = cols[ j ]; cols[ j ] = 0;
            asked[ k ] = asked[ j ]; asked[ j ].clear();
            rowsAsked[ k ] = rowsAsked[ j ]; rowsAsked[ j ] = 0;
            valuesAsked[ k ] = valuesAsked[ j ]; valuesAsked[ j ] = 0;
            if( sim::chance( 1, 2 ) ) { a[ j ].resize( 0, 0, 0 ); sim::probe( "moved-from-reused" ); }
            else { MAT fresh; a[ j ] = fresh; }
            break;
          case 1:
          {
            show( k, "copy constructed and back", 0 );
            MAT c( x );
            x.resize( 0, 0, 0 );
            x = std::move( c );
            asked[ k ].assign( v.size(), 0 ); rowsAsked[ k ] = 0; valuesAsked[ k ] = 0;
            break;
          }
          case 2:
          {
            show( k, "move constructed and back", 0 );
            MAT c( std::move( x ) );
            SIM_CHECK( x.numRows() == 0 && x.numColumns() == 0, "moved-from-not-empty", "%d rows, %d columns after moving out", int( x.numRows() ), int( x.numColumns() ) );
            if( sim::chance( 1, 2 ) ) { x.resize( 2, 3, 1 ); ins( x, 1, COL( 2 ), 5, Tag() ); sim::probe( "moved-from-reused" ); }
            x = std::move( c );
            break;
          }
          default:
          {
            show( k, "swapped with", j );
            std::swap( x, a[ j ] );
            std::swap( v, m[ j ] );
            std::swap( cols[ k ], cols[ j ] );
            std::swap( asked[ k ], asked[ j ] );
            std::swap( rowsAsked[ k ], rowsAsked[ j ] );
            std::swap( valuesAsked[ k ], valuesAsked[ j ] );
          }
        }
        break;
      }
      default: outerSpecial( k, x, Tag() );
    }
  }

  void outerSpecial( int const k, SP & x, std::false_type )
  { // what only the pattern has
    auto & v = m[ k ];
    if( sim::chance( 1, 3 ) )
    {
      int const c = sim::range( 0, 2 * MAXROWS );
      show( k, "reserveRows", c );
      x.reserveRows( IT( c ) );
      rowsAsked[ k ] = std::max( rowsAsked[ k ], IT( c ) );
      return;
    }
    if( int( v.size() ) >= MAXROWS ) return;
    int const c = sim::range( 0, 6 );
    show( k, "appendRow", c );
    x.appendRow( IT( c ) );
    v.push_back( {} );
    asked[ k ].push_back( IT( std::min< long >( c, cols[ k ] ) ) );
  }

  void outerSpecial( int const k, CRS & x, std::true_type )
  { // what only the matrix has
    auto & v = m[ k ];
    if( sim::chance( 1, 2 ) )
    {
      SP src( IT( sim::range( 0, MAXROWS ) ), IT( 1 + sim::draw( std::uint32_t( maxCols() ) ) ), IT( sim::range( 0, 4 ) ) );
      std::vector< Row > w( std::size_t( src.numRows() ) );
      for( IT i = 0; i < src.numRows(); ++i )
        while( sim::more( 3 ) )
        {
          COL const c = COL( sim::draw( std::uint32_t( src.numColumns() ) ) );
          src.insertNonZero( i, c );
          w[ std::size_t( i ) ][ long( c ) ] = 0;
        }
      if( sim::chance( 1, 4 ) ) src.compress();
      show( k, "taken over from a pattern", long( w.size() ) );
      long const c = long( src.numColumns() );
      if( sim::chance( 1, 2 ) ) x.template assimilate< RAJA::loop_exec >( std::move( src ) );
      else x.template assimilate< RAJA::omp_parallel_for_exec >( std::move( src ) );
      SIM_CHECK( src.numRows() == 0, "moved-from-not-empty", "%d rows remain after they were taken over", int( src.numRows() ) );
      v = w;
      cols[ k ] = c;
      asked[ k ].assign( v.size(), 0 ); rowsAsked[ k ] = 0; valuesAsked[ k ] = 0;
      sim::probe( "assimilated" );
      return;
    }
    if( sim::chance( 1, 2 ) )
    {
      show( k, "setValues", next );
      T const value( E::make( next ) );
      if( sim::chance( 1, 2 ) ) x.template setValues< RAJA::loop_exec >( value );
      else x.toViewConstSizes().template setValues< RAJA::omp_parallel_for_exec >( value );
      for( Row & r : v ) for( auto & e : r ) e.second = next;
      ++next;
      return;
    }
    zero( k, x, std::integral_constant< bool, ARITHMETIC >() );
  }

  void zero( int const k, CRS & x, std::true_type )
  {
    if( sizeof( IT ) < 4 && sim::chance( 1, 2 ) )
    {
      // room for more bytes than the index type can count
      IT const c = IT( sim::range( 3000, 9000 ) );
      show( k, "reserveNonZeros", c );
      x.reserveNonZeros( c );
      valuesAsked[ k ] = std::max( valuesAsked[ k ], c );
    }
    show( k, "zero", 0 );
    if( sim::chance( 1, 2 ) ) x.zero();
    else x.toViewConstSizes().zero();
    for( Row & r : m[ k ] ) for( auto & e : r ) e.second = 0;
  }
  void zero( int, CRS &, std::false_type ) {}

  // ------------------------------------------------------------------ what only the matrix has, on one row
  void innerSpecial( int, SP &, int, std::false_type ) {}
  void innerSpecial( int const k, CRS & x, int const i, std::true_type )
  {
    auto & r = m[ k ][ std::size_t( i ) ];
    IT const at = IT( i );
    if( r.empty() ) return;
    switch( sim::draw( 6 ) )
    {
      case 0:
      { // overwrite an entry
        int const j = int( sim::draw( std::uint32_t( r.size() ) ) );
        show( k, "overwrite", i, j, next );
        if( sim::chance( 1, 2 ) ) x.getEntries( at )[ IT( j ) ] = E::make( next );
        else x.toViewConstSizes().getEntries( at )[ IT( j ) ] = E::make( next );
        std::next( r.begin(), j )->second = next++;
        break;
      }
      case 1:
      { // insert an entry of the matrix itself
        int const o = int( sim::draw( std::uint32_t( m[ k ].size() ) ) );
        auto const & from = m[ k ][ std::size_t( o ) ];
        if( from.empty() || int( r.size() ) >= maxNnz() ) break;
        int const j = int( sim::draw( std::uint32_t( from.size() ) ) );
        Id const id = std::next( from.begin(), j )->second;
        long const c = drawCol( k );
        bool const fresh = r.count( c ) == 0;
        show( k, "insertNonZero of an own entry", i, c, o );
        sim::probe( "own-element" );
        bool const got = x.insertNonZero( at, COL( c ), x.getEntries( IT( o ) )[ IT( j ) ] );
        SIM_CHECK( got == fresh, "wrong-answer", "inserting (%d, %ld) answers %d", i, c, int( got ) );
        if( fresh ) r[ c ] = id;
        break;
      }
      default: add( k, x, i, std::integral_constant< bool, !std::is_same< T, std::string >::value >() );
    }
  }

  void add( int, CRS &, int, std::false_type ) {}
  void add( int const k, CRS & x, int const i, std::true_type )
  {
    auto & r = m[ k ][ std::size_t( i ) ];
    IT const at = IT( i );
    std::vector< COL > c;
    int const style = int( sim::draw( 3 ) );
    for( auto const & e : r )
      if( style == 0 ? sim::chance( 1, 2 ) : ( style == 1 ? sim::chance( 1, 8 ) : true ) ) c.push_back( COL( e.first ) );
    if( r.size() > 64 && c.size() < r.size() / 4 ) sim::probe( "long-row" );
    std::vector< T > vals;
    vals.reserve( c.size() );
    int const how = int( sim::draw( 4 ) );
    if( how == 3 )
    { // any order, repetitions allowed
      for( std::size_t j = c.size(); j > 1; --j ) std::swap( c[ j - 1 ], c[ sim::draw( std::uint32_t( j ) ) ] );
      if( !c.empty() && sim::chance( 1, 2 ) ) c.push_back( c[ 0 ] );
      vals.reserve( c.size() );
    }
    for( std::size_t j = 0; j < c.size(); ++j ) { vals.push_back( E::make( next ) ); r[ long( c[ j ] ) ] += next++; }
    show( k, "addToRow", i, how, long( c.size() ) );
    bool const owner = sim::chance( 1, 2 );
    using A = RAJA::seq_atomic;
    auto const view = x.toViewConstSizes();
    IT const n = IT( c.size() );
    switch( how )
    {
      case 0: if( owner ) x.template addToRow< A >( at, c.data(), vals.data(), n ); else view.template addToRow< A >( at, c.data(), vals.data(), n ); break;
      case 1: if( owner ) x.template addToRowLinearSearch< A >( at, c.data(), vals.data(), n ); else view.template addToRowLinearSearch< A >( at, c.data(), vals.data(), n ); break;
      case 2: if( owner ) x.template addToRowBinarySearch< A >( at, c.data(), vals.data(), n ); else view.template addToRowBinarySearch< A >( at, c.data(), vals.data(), n ); break;
      default: if( owner ) x.template addToRowBinarySearchUnsorted< A >( at, c.data(), vals.data(), n ); else view.template addToRowBinarySearchUnsorted< A >( at, c.data(), vals.data(), n );
    }
    sim::probe( "added" );
  }

  void innerStep( int const k )
  {
    MAT & x = a[ k ];
    auto & v = m[ k ];
    int const n = int( v.size() );
    if( n == 0 || cols[ k ] == 0 ) { outerStep( k ); return; }
    int const i = int( sim::draw( std::uint32_t( n ) ) );
    auto & r = v[ std::size_t( i ) ];
    int const nnz = int( r.size() );
    IT const at = IT( i );
    std::vector< int > before;
    for( int j = 0; j < n; ++j ) before.push_back( capOf( k, j ) );
    bool exact = false;
    {
      MayRelocate reloc;
      switch( sim::draw( 16 ) )
      {
        case 0: case 1: case 2:
        {
          long const c = drawCol( k );
          bool const fresh = r.count( c ) == 0;
          if( fresh && nnz >= maxNnz() ) break;
          show( k, "insertNonZero", i, c, next );
          bool const got = ins( x, at, COL( c ), next, Tag() );
          SIM_CHECK( got == fresh, "wrong-answer", "inserting (%d, %ld) answers %d", i, c, int( got ) );
          if( fresh ) r[ c ] = next;
          ++next;
          break;
        }
        case 3: case 4: case 5:
        {
          auto const c = drawCols( k, r, maxNnz() - nnz );
          int fresh = 0;
          for( std::size_t j = 0; j < c.size(); ++j ) if( r.emplace( long( c[ j ] ), next + Id( j ) ).second ) ++fresh;
          show( k, "insertNonZeros", i, long( c.size() ), fresh );
          long const got = insMany( x, at, c, next, Tag() );
          next += Id( c.size() );
          SIM_CHECK( got == fresh, "wrong-answer", "inserting %d new columns into row %d answers %ld", fresh, i, got );
          if( fresh > 1 && nnz > 0 ) sim::probe( "merged-range" );
          break;
        }
        case 6:
        {
          long const c = nnz > 0 && sim::chance( 1, 2 ) ? std::next( r.begin(), int( sim::draw( std::uint32_t( nnz ) ) ) )->first : drawCol( k );
          bool const there = r.erase( c ) == 1;
          show( k, "removeNonZero", i, c );
          bool const got = x.removeNonZero( at, COL( c ) );
          SIM_CHECK( got == there, "wrong-answer", "removing (%d, %ld) answers %d", i, c, int( got ) );
          break;
        }
        case 7: case 8:
        {
          auto const c = drawCols( k, r, 1000 );
          int there = 0;
          for( COL const col : c ) there += int( r.erase( long( col ) ) );
          show( k, "removeNonZeros", i, long( c.size() ), there );
          long const got = remMany( x, at, c, Tag() );
          SIM_CHECK( got == there, "wrong-answer", "removing %d columns from row %d answers %ld", there, i, got );
          if( there > 1 ) sim::probe( "removed-range" );
          break;
        }
        case 9:
        {
          int const c = sim::chance( 1, 4 ) ? nnz : sim::range( 0, maxNnz() );
          show( k, "setRowCapacity", i, c );
          x.setRowCapacity( at, IT( c ) );
          int const want = int( std::min< long >( c, cols[ k ] ) );
          asked[ k ][ std::size_t( i ) ] = IT( want );
          SIM_CHECK( capOf( k, i ) == want, "wrong-capacity", "row capacity %d after setting it to %d", capOf( k, i ), want );
          while( int( r.size() ) > want ) { r.erase( std::prev( r.end() ) ); sim::probe( "capacity-cut" ); }
          exact = true;
          break;
        }
        case 10:
        {
          int const c = sim::range( 0, maxNnz() );
          show( k, "reserveNonZeros of a row", i, c );
          x.reserveNonZeros( at, IT( c ) );
          int const want = int( std::min< long >( c, cols[ k ] ) );
          if( before[ std::size_t( i ) ] < c && before[ std::size_t( i ) ] > want ) exact = true; // cut to the number of columns
          asked[ k ][ std::size_t( i ) ] = exact ? IT( want ) : std::max( asked[ k ][ std::size_t( i ) ], IT( want ) );
          break;
        }
        case 11: case 12:
        { // the operations of the view, which never grow
          auto const view = x.toView();
          int const free = std::min( maxNnz() - nnz, capOf( k, i ) - nnz );
          sim::probe( "through-view" );
          switch( sim::draw( 4 ) )
          {
            case 0:
            {
              long const c = drawCol( k );
              bool const fresh = r.count( c ) == 0;
              if( fresh && free < 1 ) break;
              show( k, "view.insertNonZero", i, c, next );
              bool const got = ins( view, at, COL( c ), next, Tag() );
              SIM_CHECK( got == fresh, "wrong-answer", "inserting (%d, %ld) answers %d", i, c, int( got ) );
              if( fresh ) r[ c ] = next;
              ++next;
              break;
            }
            case 1:
            {
              auto const c = drawCols( k, r, free );
              int fresh = 0;
              for( std::size_t j = 0; j < c.size(); ++j ) if( r.emplace( long( c[ j ] ), next + Id( j ) ).second ) ++fresh;
              show( k, "view.insertNonZeros", i, long( c.size() ), fresh );
              if( nnz > 0 && fresh == free && fresh > 0 ) sim::probe( "filled-exactly" );
              long const got = insMany( view, at, c, next, Tag() );
              next += Id( c.size() );
              SIM_CHECK( got == fresh, "wrong-answer", "inserting %d new columns into row %d answers %ld", fresh, i, got );
              break;
            }
            case 2:
            {
              long const c = drawCol( k );
              bool const there = r.erase( c ) == 1;
              show( k, "view.removeNonZero", i, c );
              bool const got = view.removeNonZero( at, COL( c ) );
              SIM_CHECK( got == there, "wrong-answer", "removing (%d, %ld) answers %d", i, c, int( got ) );
              break;
            }
            default:
            {
              auto const c = drawCols( k, r, 1000 );
              int there = 0;
              for( COL const col : c ) there += int( r.erase( long( col ) ) );
              show( k, "view.removeNonZeros", i, long( c.size() ), there );
              long const got = remMany( view, at, c, Tag() );
              SIM_CHECK( got == there, "wrong-answer", "removing %d columns from row %d answers %ld", there, i, got );
            }
          }
          SIM_CHECK( capOf( k, i ) == before[ std::size_t( i ) ], "wrong-capacity", "a view changed the capacity of row %d", i );
          break;
        }
        default: innerSpecial( k, x, i, Tag() );
      }
    }
    for( int j = 0; j < n; ++j )
    {
      int const c = capOf( k, j );
      bool const mayChange = j == i && ( exact || c > before[ std::size_t( j ) ] );
      SIM_CHECK( mayChange || c == before[ std::size_t( j ) ], "wrong-capacity", "the capacity of row %d changed from %d to %d by an operation on row %d",
                 j, before[ std::size_t( j ) ], c, i );
    }
  }

  void step()
  {
    sim::Span span;
    int const k = int( sim::draw( K ) );
    if( sim::chance( 1, wide ? 12 : 4 ) ) outerStep( k );
    else innerStep( k );
    if( m[ k ].size() > 1 ) sim::probe( "nontrivial" );
  }

  void verifyEntries( int, IT, Row const &, std::false_type ) {}
  void verifyEntries( int const k, IT const i, Row const & r, std::true_type )
  {
    CRS const & x = a[ k ];
    auto const entries = x.getEntries( i );
    auto const view = x.toViewConst();
    SIM_CHECK( entries.size() == IT( r.size() ), "wrong-size", "row %d has %d entries, expected %zu", int( i ), int( entries.size() ), r.size() );
    IT j = 0;
    for( auto const & e : r )
    {
      Id const got = E::id( entries[ j ] );
      SIM_CHECK( got == e.second, "wrong-value", "entry (%d, %ld) is %lld, expected %lld", int( i ), e.first, (long long) got, (long long) e.second );
      SIM_CHECK( &view.getEntries( i )[ j ] == &entries[ j ] && x.getEntries() + x.getOffsets()[ i ] + j == &entries[ j ], "wrong-address", "the access paths to entry %d of row %d disagree", int( j ), int( i ) );
      ++j;
    }
  }

  static auto patternView( CRS const & x ) { return x.toSparsityPatternView(); }
  static auto patternView( SP const & x ) { return x.toViewConst(); }

  template< typename V >
  void shape( V const & v, IT const n, long const c, char const * const which )
  {
    SIM_CHECK( v.numRows() == n && v.numColumns() == IT( c ), "wrong-size", "the %s is %d by %d, expected %d by %ld", which, int( v.numRows() ), int( v.numColumns() ), int( n ), c );
    SIM_CHECK( n == 0 || v.empty( n - 1 ) == ( v.numNonZeros( n - 1 ) == 0 ), "wrong-size", "the %s is wrong about an empty row", which );
  }
  void viewShapes( CRS const & x, IT const n, long const c )
  { shape( x.toView(), n, c, "view" ); shape( x.toViewConstSizes(), n, c, "view of fixed sizes" ); shape( x.toViewConst(), n, c, "constant view" ); shape( x.toSparsityPatternView(), n, c, "view of the pattern" ); shape( x.toViewConstSizes().toViewConst(), n, c, "constant view of a view" ); }
  void viewShapes( SP const & x, IT const n, long const c )
  { shape( x.toView(), n, c, "view" ); shape( x.toViewConst(), n, c, "constant view" ); shape( x.toView().toViewConst(), n, c, "constant view of a view" ); }

  void verify( int const k )
  {
    MAT const & x = a[ k ];
    auto const & v = m[ k ];
    IT const n = IT( v.size() );
    SIM_CHECK( x.numRows() == n && x.numColumns() == IT( cols[ k ] ), "wrong-size", "%d by %d, expected %d by %ld", int( x.numRows() ), int( x.numColumns() ), int( n ), cols[ k ] );
    auto const view = patternView( x );
    viewShapes( x, n, cols[ k ] );
    IT const valueCapacity = x.nonZeroCapacity();
    SIM_CHECK( valueCapacity >= valuesAsked[ k ], "wrong-capacity", "room for %d non zeros, reserved %d", int( valueCapacity ), int( valuesAsked[ k ] ) );
    IT end = 0;
    IT total = 0;
    for( IT i = 0; i < n; ++i )
    {
      auto const & r = v[ std::size_t( i ) ];
      IT const len = IT( r.size() );
      total += len;
      SIM_CHECK( x.numNonZeros( i ) == len && view.numNonZeros( i ) == len && x.empty( i ) == ( len == 0 ), "wrong-size", "row %d has %d non zeros, expected %d", int( i ), int( x.numNonZeros( i ) ), int( len ) );
      IT const cap = x.nonZeroCapacity( i );
      SIM_CHECK( cap >= len && cap >= asked[ k ][ std::size_t( i ) ], "wrong-capacity", "row %d has capacity %d, %d non zeros, asked for %d",
                 int( i ), int( cap ), int( len ), int( asked[ k ][ std::size_t( i ) ] ) );
      IT const offset = x.getOffsets()[ i ];
      SIM_CHECK( offset >= end && offset + cap <= valueCapacity, "overlap", "row %d occupies %d to %d, the one before ends at %d, there is room for %d",
                 int( i ), int( offset ), int( offset + cap ), int( end ), int( valueCapacity ) );
      end = offset + cap;
      auto const columns = x.getColumns( i );
      SIM_CHECK( columns.size() == len, "wrong-size", "row %d has %d columns, expected %d", int( i ), int( columns.size() ), int( len ) );
      IT j = 0;
      for( auto const & e : r )
      {
        SIM_CHECK( long( columns[ j ] ) == e.first && long( view.getColumns( i )[ j ] ) == e.first, "wrong-value", "column %d of row %d is %ld, expected %ld", int( j ), int( i ), long( columns[ j ] ), e.first );
        ++j;
      }
      if( cols[ k ] > 0 )
      {
        long const q = drawCol( k );
        bool const got = x.empty( i, COL( q ) );
        SIM_CHECK( got == ( r.count( q ) == 0 ), "wrong-answer", "empty( %d, %ld ) answers %d", int( i ), q, int( got ) );
      }
      verifyEntries( k, i, r, Tag() );
    }
    SIM_CHECK( x.numNonZeros() == total && x.empty() == ( total == 0 ), "wrong-size", "%d non zeros, expected %d", int( x.numNonZeros() ), int( total ) );
  }
  void verify() { for( int k = 0; k < K; ++k ) verify( k ); }
};

} // namespace scn
