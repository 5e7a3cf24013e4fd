// Random valid histories on arrays of sets, compared with a vector of ordered sets after every operation.
#pragma once
#include "bench_ragged.hpp"

namespace scn
{

template< typename T, typename IT >
struct SetsBench
{
  using AOS = LvArray::ArrayOfSets< T, IT, LvArray::MallocBuffer >;
  using E = Elem< T >;
  static constexpr int K = 2;
  static constexpr int MAXOUT = 8;

  AOS a[ K ];
  std::vector< std::set< Id > > m[ K ];
  std::vector< IT > asked[ K ];
  IT outerAsked[ K ] = { 0, 0 };
  IT valuesAsked[ K ] = { 0, 0 };
  int me;
  int universe;
  int maxIn = 16;
  bool large() const { return maxIn > 16; }

  explicit SetsBench( int const caller ): me( caller ) {
    universe = sim::chance( 1, 2 ) ? 10 : 40;
    if( sim::chance( 1, 32 ) ) { maxIn = 150; universe = 400; sim::probe( "large" ); }
  }

  Id drawId() { return 1 + Id( sim::draw( std::uint32_t( universe ) ) ); }
  int capOf( int const k, int const i ) { return int( a[ k ].capacityOfSet( IT( i ) ) ); }
  void show( int const k, char const * const what, long const x, long const y=0, long const z=0 )
  { sim::log( "%d: sets%d(%zu of %s) %s %ld %ld %ld", me, k, m[ k ].size(), E::name(), what, x, y, z ); }

  /// A set of values to insert or remove, biased to the interesting places; inserting it keeps the size below the limit.
  std::set< Id > drawRange( std::set< Id > const & s, int const limit )
  {
    std::set< Id > r;
    int fresh = 0;
    int const most = limit > 0 ? limit : 0;
    auto const add = [ & ]( Id const i )
    {
      if( i < 1 || r.count( i ) ) return;
      if( !s.count( i ) ) { if( fresh >= most ) return; ++fresh; }
      r.insert( i );
    };
    switch( sim::draw( 4 ) )
    {
      case 0: while( sim::more( large() ? 40 : 4 ) ) add( drawId() ); break;
      case 1:
      {
        Id const from = drawId();
        int const n = sim::range( 0, large() ? 90 : 7 );
        for( Id i = from; i < from + n; ++i ) add( i );
        break;
      }
      case 2:
        for( Id const i : s ) if( sim::chance( 1, 2 ) ) add( i );
        if( sim::chance( 1, 2 ) ) add( drawId() );
        break;
      default:
        for( int i = 0; i < 2; ++i ) add( s.empty() ? drawId() : *s.rbegin() + 1 + i );
        if( !s.empty() ) add( *s.begin() - 1 );
    }
    return r;
  }

  template< typename F > auto withRange( std::set< Id > const & ids, F && f )
  {
    if( sim::chance( 1, 2 ) )
    {
      std::set< T > s;
      for( Id const i : ids ) s.insert( E::make( i ) );
      return f( s.begin(), s.end() );
    }
    std::vector< T > v;
    v.reserve( ids.size() );
    for( Id const i : ids ) v.push_back( E::make( i ) );
    T const * const p = v.data();
    return f( p, p + v.size() );
  }

  void outerStep( int const k )
  {
    MayRelocate reloc;
    AOS & x = a[ k ];
    auto & v = m[ k ];
    int const n = int( v.size() );
    switch( sim::draw( 15 ) )
    {
      case 0: case 1: case 2:
      {
        if( n >= MAXOUT ) break;
        int const c = sim::range( 0, 4 );
        show( k, "appendSet", c );
        bool const fits = n < int( x.capacity() );
        auto const offsets = x.toViewConst().getOffsets();
        x.appendSet( IT( c ) );
        SIM_CHECK( !fits || x.toViewConst().getOffsets() == offsets, "wrong-capacity", "the outer array was reallocated with size %d although its capacity was larger", n );
        v.push_back( {} );
        asked[ k ].push_back( IT( c ) );
        break;
      }
      case 3: case 4:
      {
        if( n >= MAXOUT ) break;
        int const c = sim::range( 0, 4 );
        int const i = sim::range( 0, n );
        show( k, "insertSet", i, c );
        x.insertSet( IT( i ), IT( c ) );
        v.insert( v.begin() + i, std::set< Id >() );
        asked[ k ].insert( asked[ k ].begin() + i, IT( c ) );
        break;
      }
      case 5: case 6:
      {
        if( n == 0 ) break;
        int const i = int( sim::draw( std::uint32_t( n ) ) );
        show( k, "eraseSet", i );
        x.eraseSet( IT( i ) );
        v.erase( v.begin() + i );
        asked[ k ].erase( asked[ k ].begin() + i );
        break;
      }
      case 7:
      {
        int const c = sim::range( 0, MAXOUT );
        int const cap = sim::chance( 1, 2 ) ? 0 : sim::range( 0, 5 );
        show( k, "resize", c, cap );
        if( c < n ) sim::probe( "shrunk" );
        if( cap == 0 && sim::chance( 1, 3 ) ) x.resize( IT( c ) );
        else x.resize( IT( c ), IT( cap ) );
        v.resize( std::size_t( c ) );
        asked[ k ].resize( std::size_t( c ), IT( cap ) );
        break;
      }
      case 8:
        show( k, "compress", 0 );
        x.compress();
        for( int i = 0; i < n; ++i )
        {
          asked[ k ][ std::size_t( i ) ] = 0;
          SIM_CHECK( capOf( k, i ) == int( v[ std::size_t( i ) ].size() ), "room-left", "set %d has capacity %d and size %zu after compressing", i, capOf( k, i ), v[ std::size_t( i ) ].size() );
        }
        sim::probe( "compressed" );
        break;
      case 9:
        if( sim::chance( 1, 2 ) )
        {
          int const c = sim::range( 0, 2 * MAXOUT );
          show( k, "reserve", c );
          x.reserve( IT( c ) );
          outerAsked[ k ] = std::max( outerAsked[ k ], IT( c ) );
        }
        else
        {
          int const c = sim::range( 0, 100 );
          show( k, "reserveValues", c );
          x.reserveValues( IT( c ) );
          valuesAsked[ k ] = std::max( valuesAsked[ k ], IT( c ) );
        }
        break;
      case 10:
      {
        int const c = sim::range( 0, MAXOUT );
        std::vector< IT > caps;
        for( int i = 0; i < c; ++i ) caps.push_back( IT( sim::range( 0, 6 ) ) );
        show( k, "resizeFromCapacities", c );
        if( sim::chance( 1, 2 ) ) x.template resizeFromCapacities< RAJA::seq_exec >( IT( c ), caps.data() );
        else x.template resizeFromCapacities< RAJA::omp_parallel_for_exec >( IT( c ), caps.data() );
        v.assign( std::size_t( c ), {} );
        asked[ k ] = caps;
        for( int i = 0; i < c; ++i )
          SIM_CHECK( capOf( k, i ) == caps[ std::size_t( i ) ], "wrong-capacity", "set %d has capacity %d, asked for %ld", i, capOf( k, i ), long( caps[ std::size_t( i ) ] ) );
        sim::probe( "from-capacities" );
        break;
      }
      case 11:
      {
        int const j = int( sim::draw( K ) );
        show( k, "copy assigned from", j );
        x = static_cast< AOS const & >( a[ j ] );
        if( j != k ) { v = m[ j ]; asked[ k ].assign( v.size(), 0 ); }
        else sim::probe( "self-assignment" );
        break;
      }
      case 12:
      {
        int const j = 1 - k;
        switch( sim::draw( 4 ) )
        {
          case 0:
            show( k, "move assigned from", j );
            x = std::move( a[ j ] );
            SIM_CHECK( a[ j ].size() == 0, "moved-from-not-empty", "size %d after moving out", int( a[ j ].size() ) );
            v = m[ j ]; m[ j ].clear();
            asked[ k ] = asked[ j ]; asked[ j ].clear();
            outerAsked[ k ] = outerAsked[ j ]; outerAsked[ j ] = 0;
            valuesAsked[ k ] = valuesAsked[ j ]; valuesAsked[ j ] = 0;
            if( sim::chance( 1, 2 ) ) { a[ j ].resize( 0 ); sim::probe( "moved-from-reused" ); }
            else { AOS fresh; a[ j ] = fresh; }
            break;
          case 1:
          {
            show( k, "copy constructed and back", 0 );
            AOS c( x );
            x.resize( 0 );
            x = std::move( c );
            asked[ k ].assign( v.size(), 0 ); outerAsked[ k ] = 0; valuesAsked[ k ] = 0;
            break;
          }
          case 2:
          {
            show( k, "move constructed and back", 0 );
            AOS c( std::move( x ) );
            SIM_CHECK( x.size() == 0, "moved-from-not-empty", "size %d after moving out", int( x.size() ) );
            if( sim::chance( 1, 2 ) ) { x.resize( 2, 1 ); x.insertIntoSet( 1, E::make( 5 ) ); sim::probe( "moved-from-reused" ); }
            x = std::move( c );
            break;
          }
          default:
          {
            show( k, "swapped with", j );
            std::swap( x, a[ j ] );
            std::swap( v, m[ j ] );
            std::swap( asked[ k ], asked[ j ] );
            std::swap( outerAsked[ k ], outerAsked[ j ] );
            std::swap( valuesAsked[ k ], valuesAsked[ j ] );
          }
        }
        break;
      }
      default:
      { // taken over from a ragged array of which the order and uniqueness are described
        LvArray::ArrayOfArrays< T, IT, LvArray::MallocBuffer > src;
        bool const sorted = sim::chance( 1, 2 ), unique = sim::chance( 1, 2 );
        int const c = sim::range( 0, 4 );
        show( k, "taken over from arrays", c, sorted, unique );
        std::vector< std::set< Id > > w;
        for( int i = 0; i < c; ++i )
        {
          std::vector< Id > ids;
          int const len = sim::chance( 1, 8 ) ? sim::range( 17, large() ? 300 : 40 ) : sim::range( 0, 9 );
          if( len > 16 ) sim::probe( "long-input" );
          Id last = 0;
          for( int j = 0; j < len; ++j )
          {
            last = sorted ? last + ( unique ? 1 : 0 ) + Id( sim::draw( 3 ) ) : drawId();
            if( last == 0 ) last = 1;
            if( unique && !sorted )
            {
              bool seen = false;
              for( Id const o : ids ) seen = seen || o == last;
              if( seen ) continue;
            }
            ids.push_back( last );
          }
          src.appendArray( 0 );
          if( sim::chance( 1, 3 ) ) src.setCapacityOfArray( IT( i ), IT( len + sim::range( 0, 3 ) ) );
          for( Id const id : ids ) src.emplaceBack( IT( i ), E::make( id ) );
          w.push_back( std::set< Id >( ids.begin(), ids.end() ) );
          if( w.back().size() < ids.size() ) sim::probe( "duplicates" );
        }
        using namespace LvArray::sortedArrayManipulation;
        // a description may promise less than what is there
        Description const desc = sorted ? ( unique ? SORTED_UNIQUE : SORTED_WITH_DUPLICATES ) : ( unique ? UNSORTED_NO_DUPLICATES : UNSORTED_WITH_DUPLICATES );
        x.assimilate( std::move( src ), desc );
        SIM_CHECK( src.size() == 0, "moved-from-not-empty", "%d arrays remain after they were taken over", int( src.size() ) );
        v = w;
        asked[ k ].assign( v.size(), 0 ); outerAsked[ k ] = 0; valuesAsked[ k ] = 0;
        sim::probe( "assimilated" );
      }
    }
  }

  void innerStep( int const k )
  {
    AOS & x = a[ k ];
    auto & v = m[ k ];
    int const n = int( v.size() );
    if( n == 0 ) { outerStep( k ); return; }
    int const i = int( sim::draw( std::uint32_t( n ) ) );
    auto & s = v[ std::size_t( i ) ];
    int const len = int( s.size() );
    IT const at = IT( i );
    std::vector< int > before;
    for( int j = 0; j < n; ++j ) before.push_back( capOf( k, j ) );
    bool exact = false;
    {
      MayRelocate reloc;
      switch( sim::draw( 16 ) )
      {
        case 0: case 1: case 2: case 3:
        {
          Id const id = drawId();
          bool const fresh = s.count( id ) == 0;
          if( fresh && len >= maxIn ) break;
          show( k, "insertIntoSet", i, id );
          bool const got = x.insertIntoSet( at, E::make( id ) );
          SIM_CHECK( got == fresh, "wrong-answer", "inserting %lld into set %d answers %d", (long long) id, i, int( got ) );
          s.insert( id );
          break;
        }
        case 4: case 5: case 6:
        {
          auto const r = drawRange( s, maxIn - len );
          int fresh = 0;
          for( Id const id : r ) fresh += s.count( id ) == 0;
          show( k, "insertIntoSet range", i, long( r.size() ), fresh );
          long const got = withRange( r, [ & ]( auto const b, auto const e ) { return long( x.insertIntoSet( at, b, e ) ); } );
          SIM_CHECK( got == fresh, "wrong-answer", "inserting %d new values into set %d answers %ld", fresh, i, got );
          if( fresh > 1 && len > 0 ) sim::probe( "merged-range" );
          s.insert( r.begin(), r.end() );
          break;
        }
        case 7:
        {
          Id const id = len > 0 && sim::chance( 1, 2 ) ? *std::next( s.begin(), int( sim::draw( std::uint32_t( len ) ) ) ) : drawId();
          bool const there = s.erase( id ) == 1;
          show( k, "removeFromSet", i, id );
          bool const got = x.removeFromSet( at, E::make( id ) );
          SIM_CHECK( got == there, "wrong-answer", "removing %lld from set %d answers %d", (long long) id, i, int( got ) );
          break;
        }
        case 8: case 9:
        {
          auto const r = drawRange( s, 50 );
          int there = 0;
          for( Id const id : r ) there += int( s.erase( id ) );
          show( k, "removeFromSet range", i, long( r.size() ), there );
          long const got = withRange( r, [ & ]( auto const b, auto const e ) { return long( x.removeFromSet( at, b, e ) ); } );
          SIM_CHECK( got == there, "wrong-answer", "removing %d values from set %d answers %ld", there, i, got );
          if( there > 1 ) sim::probe( "removed-range" );
          break;
        }
        case 10:
        { // a value of another set of the same container
          int const o = int( sim::draw( std::uint32_t( n ) ) );
          if( o == i || v[ std::size_t( o ) ].empty() ) break;
          int const j = int( sim::draw( std::uint32_t( v[ std::size_t( o ) ].size() ) ) );
          Id const id = *std::next( v[ std::size_t( o ) ].begin(), j );
          bool const fresh = s.count( id ) == 0;
          if( fresh && len >= maxIn ) break;
          show( k, "insertIntoSet of another set's value", i, o, j );
          sim::probe( "own-element" );
          bool const got = x.insertIntoSet( at, x( IT( o ), IT( j ) ) );
          SIM_CHECK( got == fresh, "wrong-answer", "inserting %lld into set %d answers %d", (long long) id, i, int( got ) );
          s.insert( id );
          break;
        }
        case 11:
          if( len > 0 && sim::chance( 1, 2 ) )
          {
            int const j = int( sim::draw( std::uint32_t( len ) ) );
            show( k, "removeFromSet of its own value", i, j );
            sim::probe( "own-element" );
            s.erase( std::next( s.begin(), j ) );
            bool const got = x.removeFromSet( at, x( at, IT( j ) ) );
            SIM_CHECK( got, "wrong-answer", "a value of set %d was not found", i );
            break;
          }
          show( k, "clearSet", i );
          x.clearSet( at );
          s.clear();
          break;
        case 12:
        {
          int const c = sim::chance( 1, 4 ) ? len : sim::range( 0, maxIn );
          show( k, "setCapacityOfSet", i, c );
          x.setCapacityOfSet( at, IT( c ) );
          asked[ k ][ std::size_t( i ) ] = IT( c );
          SIM_CHECK( capOf( k, i ) == c, "wrong-capacity", "capacity %d after setting it to %d", capOf( k, i ), c );
          while( int( s.size() ) > c ) { s.erase( std::prev( s.end() ) ); sim::probe( "capacity-cut" ); }
          exact = true;
          break;
        }
        case 13:
        {
          int const c = sim::range( 0, maxIn );
          show( k, "reserveCapacityOfSet", i, c );
          x.reserveCapacityOfSet( at, IT( c ) );
          asked[ k ][ std::size_t( i ) ] = std::max( asked[ k ][ std::size_t( i ) ], IT( c ) );
          break;
        }
        default:
        { // the operations of the view, which never grow
          auto const view = x.toView();
          int const free = std::min( maxIn - len, capOf( k, i ) - len );
          sim::probe( "through-view" );
          switch( sim::draw( 4 ) )
          {
            case 0:
            {
              Id const id = drawId();
              bool const fresh = s.count( id ) == 0;
              if( fresh && free < 1 ) break;
              show( k, "view.insertIntoSet", i, id );
              bool const got = view.insertIntoSet( at, E::make( id ) );
              SIM_CHECK( got == fresh, "wrong-answer", "inserting %lld into set %d answers %d", (long long) id, i, int( got ) );
              s.insert( id );
              break;
            }
            case 1:
            {
              auto const r = drawRange( s, free );
              int fresh = 0;
              for( Id const id : r ) fresh += s.count( id ) == 0;
              show( k, "view.insertIntoSet range", i, long( r.size() ), fresh );
              if( len > 0 && fresh == free && fresh > 0 ) sim::probe( "filled-exactly" );
              long const got = withRange( r, [ & ]( auto const b, auto const e ) { return long( view.insertIntoSet( at, b, e ) ); } );
              SIM_CHECK( got == fresh, "wrong-answer", "inserting %d new values into set %d answers %ld", fresh, i, got );
              s.insert( r.begin(), r.end() );
              break;
            }
            case 2:
            {
              Id const id = drawId();
              bool const there = s.erase( id ) == 1;
              show( k, "view.removeFromSet", i, id );
              bool const got = view.removeFromSet( at, E::make( id ) );
              SIM_CHECK( got == there, "wrong-answer", "removing %lld from set %d answers %d", (long long) id, i, int( got ) );
              break;
            }
            default:
            {
              auto const r = drawRange( s, 50 );
              int there = 0;
              for( Id const id : r ) there += int( s.erase( id ) );
              show( k, "view.removeFromSet range", i, long( r.size() ), there );
              long const got = withRange( r, [ & ]( auto const b, auto const e ) { return long( view.removeFromSet( at, b, e ) ); } );
              SIM_CHECK( got == there, "wrong-answer", "removing %d values from set %d answers %ld", there, i, got );
            }
          }
          SIM_CHECK( capOf( k, i ) == before[ std::size_t( i ) ], "wrong-capacity", "a view changed the capacity of set %d", i );
        }
      }
    }
    for( int j = 0; j < n; ++j )
    {
      int const c = capOf( k, j );
      bool const mayChange = j == i && ( exact || c > before[ std::size_t( j ) ] );
      SIM_CHECK( mayChange || c == before[ std::size_t( j ) ], "wrong-capacity", "the capacity of set %d changed from %d to %d by an operation on set %d",
                 j, before[ std::size_t( j ) ], c, i );
    }
  }

  void step()
  {
    sim::Span span;
    int const k = int( sim::draw( K ) );
    if( sim::chance( 1, 3 ) ) outerStep( k );
    else innerStep( k );
    if( m[ k ].size() > 1 ) sim::probe( "nontrivial" );
  }

  void verify( int const k )
  {
    AOS const & x = a[ k ];
    auto const & v = m[ k ];
    IT const n = IT( v.size() );
    SIM_CHECK( x.size() == n, "wrong-size", "%d sets, expected %d", int( x.size() ), int( n ) );
    SIM_CHECK( x.capacity() >= n && x.capacity() >= outerAsked[ k ], "wrong-capacity", "outer capacity %d, size %d, reserved %d", int( x.capacity() ), int( n ), int( outerAsked[ k ] ) );
    auto const view = x.toViewConst();
    auto const ragged = x.toArrayOfArraysView();
    SIM_CHECK( view.size() == n && ragged.size() == n, "wrong-size", "the views have %d and %d sets, expected %d", int( view.size() ), int( ragged.size() ), int( n ) );
    IT const valueCapacity = x.valueCapacity();
    SIM_CHECK( valueCapacity >= valuesAsked[ k ], "wrong-capacity", "room for %d values, reserved %d", int( valueCapacity ), int( valuesAsked[ k ] ) );
    IT end = 0;
    for( IT i = 0; i < n; ++i )
    {
      auto const & s = v[ std::size_t( i ) ];
      IT const len = IT( s.size() );
      SIM_CHECK( x.sizeOfSet( i ) == len && ragged.sizeOfArray( i ) == len, "wrong-size", "set %d has size %d, expected %d", int( i ), int( x.sizeOfSet( i ) ), int( len ) );
      IT const cap = x.capacityOfSet( i );
      SIM_CHECK( cap >= len && cap >= asked[ k ][ std::size_t( i ) ], "wrong-capacity", "set %d has capacity %d, size %d, asked for %d",
                 int( i ), int( cap ), int( len ), int( asked[ k ][ std::size_t( i ) ] ) );
      IT const offset = view.getOffsets()[ i ];
      SIM_CHECK( offset >= end && offset + cap <= valueCapacity, "overlap", "set %d occupies %d to %d, the one before ends at %d, there is room for %d",
                 int( i ), int( offset ), int( offset + cap ), int( end ), int( valueCapacity ) );
      end = offset + cap;
      IT j = 0;
      for( Id const want : s )
      {
        Id const got = E::id( x( i, j ) );
        SIM_CHECK( got == want, "wrong-value", "value %d of set %d is %lld, expected %lld of %s", int( j ), int( i ), (long long) got, (long long) want,
                   scn::show( std::vector< Id >( s.begin(), s.end() ) ).c_str() );
        SIM_CHECK( &x[ i ][ j ] == &x( i, j ) && &view[ i ][ j ] == &x( i, j ) && &ragged( i, j ) == &x( i, j ), "wrong-address", "the access paths to value %d of set %d disagree", int( j ), int( i ) );
        ++j;
      }
      Id const q = drawId();
      bool const got = x.contains( i, E::make( q ) );
      SIM_CHECK( got == ( s.count( q ) == 1 ), "wrong-answer", "contains( %d, %lld ) answers %d", int( i ), (long long) q, int( got ) );
    }
    x.consistencyCheck();
  }
  void verify() { for( int k = 0; k < K; ++k ) verify( k ); }
};

} // namespace scn
