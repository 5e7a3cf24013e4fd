// Random valid histories on ragged arrays, compared with a vector of vectors after every operation.
#pragma once
#include "common.hpp"
#include <list>

namespace scn
{

/// While one of these lives a whole values buffer may be moved, see gapRelocation.
struct MayRelocate
{
  MayRelocate() { mayRelocateGaps( 1 ); }
  ~MayRelocate() { mayRelocateGaps( -1 ); }
};

template< typename T, typename IT >
struct RaggedBench
{
  using AOA = LvArray::ArrayOfArrays< T, IT, LvArray::MallocBuffer >;
  using E = Elem< T >;
  static constexpr int K = 2;
  int maxOut = 9;
  int maxIn = 14;
  bool large() const { return maxIn > 14 || maxOut > 9; }

  AOA a[ K ];
  std::vector< std::vector< Id > > m[ K ];
  std::vector< IT > asked[ K ];                     // the capacity asked for, of each inner array
  IT outerAsked[ K ] = { 0, 0 };
  IT valuesAsked[ K ] = { 0, 0 };
  Id next = 1;
  int me;
  bool allowRelocation = true;

  explicit RaggedBench( int const caller ): me( caller ) {
    next = 1 + 1000 * caller;
    if( sim::chance( 1, 32 ) ) { if( sim::chance( 1, 2 ) ) maxIn = 200; else maxOut = 60; sim::probe( "large" ); }
  }

  void show( int const k, char const * const what, long const x, long const y=0, long const z=0 )
  { sim::log( "%d: ragged%d(%zu of %s) %s %ld %ld %ld", me, k, m[ k ].size(), E::name(), what, x, y, z ); }

  int smallCount( int const limit ) const
  {
    int const n = sim::chance( 1, large() ? 3 : 8 ) ? sim::range( 0, maxIn ) : sim::range( 0, 4 );
    return n < limit ? n : limit;
  }

  std::vector< Id > newIds( int const n )
  {
    std::vector< Id > ids;
    for( int i = 0; i < n; ++i ) ids.push_back( next++ );
    return ids;
  }

  /// f( first, last ) with iterators of some kind over values of the given ids.
  template< typename F > void withRange( std::vector< Id > const & ids, F && f )
  {
    switch( sim::draw( 3 ) )
    {
      case 0:
      {
        std::vector< T > v;
        v.reserve( ids.size() );
        for( Id const i : ids ) v.push_back( E::make( i ) );
        T const * const p = v.data();
        f( p, p + v.size() );
        break;
      }
      case 1:
      {
        std::list< T > v;
        for( Id const i : ids ) v.push_back( E::make( i ) );
        f( v.begin(), v.end() );
        break;
      }
      default:
      {
        std::vector< T > v;
        for( Id const i : ids ) v.push_back( E::make( i ) );
        f( v.cbegin(), v.cend() );
      }
    }
  }

  int capOf( int const k, int const i ) { return int( a[ k ].capacityOfArray( IT( i ) ) ); }

  template< typename ARRAY >
  void emplaceBackSomehow( ARRAY && x, int const i )
  {
    if( sim::chance( 1, 2 ) ) x.emplaceBack( IT( i ), E::make( next ) );
    else
    {
      T const value( E::make( next ) );
      x.emplaceBack( IT( i ), value );
    }
    ++next;
  }

  /// An operation that changes the number of inner arrays or works on the whole container.
  void outerStep( int const k )
  {
    MayRelocate reloc;
    AOA & x = a[ k ];
    auto & v = m[ k ];
    int const n = int( v.size() );
    switch( sim::draw( 16 ) )
    {
      case 0: case 1:
      {
        if( n >= maxOut ) break;
        int const c = smallCount( maxIn );
        show( k, "appendArray of", c );
        bool const fits = n < int( x.capacity() );
        auto const offsets = x.toViewConst().getOffsets();
        x.appendArray( IT( c ) );
        SIM_CHECK( !fits || x.toViewConst().getOffsets() == offsets, "wrong-capacity", "the outer array was reallocated with size %d although its capacity was larger", n );
        v.push_back( std::vector< Id >( std::size_t( c ), defaultId< T >() ) );
        asked[ k ].push_back( 0 );
        break;
      }
      case 2: case 3:
      {
        if( n >= maxOut ) break;
        auto const ids = newIds( smallCount( maxIn ) );
        show( k, "appendArray range", long( ids.size() ) );
        withRange( ids, [ & ]( auto const b, auto const e ) { x.appendArray( b, e ); } );
        v.push_back( ids );
        asked[ k ].push_back( 0 );
        break;
      }
      case 4: case 5:
      {
        if( n >= maxOut ) break;
        auto const ids = newIds( smallCount( maxIn ) );
        int const i = sim::range( 0, n );
        show( k, "insertArray", i, long( ids.size() ) );
        withRange( ids, [ & ]( auto const b, auto const e ) { x.insertArray( IT( i ), b, e ); } );
        v.insert( v.begin() + i, ids );
        asked[ k ].insert( asked[ k ].begin() + i, 0 );
        break;
      }
      case 6: case 7:
      {
        if( n == 0 ) break;
        int const i = int( sim::draw( std::uint32_t( n ) ) );
        show( k, "eraseArray", i );
        x.eraseArray( IT( i ) );
        v.erase( v.begin() + i );
        asked[ k ].erase( asked[ k ].begin() + i );
        break;
      }
      case 8:
      {
        int const c = sim::range( 0, maxOut );
        int const cap = sim::chance( 1, 2 ) ? 0 : sim::range( 0, 5 );
        show( k, "resize", c, cap );
        if( c < n ) sim::probe( "shrunk" );
        if( sim::chance( 1, 3 ) && cap == 0 ) x.resize( IT( c ) );
        else x.resize( IT( c ), IT( cap ) );
        v.resize( std::size_t( c ) );
        asked[ k ].resize( std::size_t( c ), IT( cap ) );
        break;
      }
      case 9:
        show( k, "compress", 0 );
        x.compress();
        for( int i = 0; i < n; ++i )
        {
          asked[ k ][ std::size_t( i ) ] = 0;
          SIM_CHECK( capOf( k, i ) == int( v[ std::size_t( i ) ].size() ), "room-left", "array %d has capacity %d and size %zu after compressing", i, capOf( k, i ), v[ std::size_t( i ) ].size() );
        }
        sim::probe( "compressed" );
        break;
      case 10:
      {
        int const c = sim::range( 0, 2 * maxOut );
        show( k, "reserve", c );
        x.reserve( IT( c ) );
        outerAsked[ k ] = std::max( outerAsked[ k ], IT( c ) );
        break;
      }
      case 11:
      {
        int const c = sim::range( 0, 100 );
        show( k, "reserveValues", c );
        x.reserveValues( IT( c ) );
        valuesAsked[ k ] = std::max( valuesAsked[ k ], IT( c ) );
        break;
      }
      case 12:
      {
        int const c = sim::range( 0, maxOut );
        std::vector< IT > caps;
        for( int i = 0; i < c; ++i ) caps.push_back( IT( smallCount( maxIn ) ) );
        show( k, "resizeFromCapacities", c );
        if( sim::chance( 1, 2 ) ) x.template resizeFromCapacities< RAJA::seq_exec >( IT( c ), caps.data() );
        else x.template resizeFromCapacities< RAJA::omp_parallel_for_exec >( IT( c ), caps.data() );
        v.assign( std::size_t( c ), {} );
        asked[ k ] = caps;
        for( int i = 0; i < c; ++i )
          SIM_CHECK( capOf( k, i ) == caps[ std::size_t( i ) ], "wrong-capacity", "array %d has capacity %d, asked for %ld", i, capOf( k, i ), long( caps[ std::size_t( i ) ] ) );
        sim::probe( "from-capacities" );
        break;
      }
      case 13:
      {
        int const j = int( sim::draw( K ) );
        show( k, "copy assigned from", j );
        x = static_cast< AOA const & >( a[ j ] );
        if( j != k ) { v = m[ j ]; asked[ k ].assign( v.size(), 0 ); }
        else sim::probe( "self-assignment" );
        break;
      }
      case 14:
      {
        int const j = 1 - k;
        switch( sim::draw( 5 ) )
        {
          case 0:
            show( k, "move assigned from", j );
            x = std::move( a[ j ] );
            v = m[ j ]; m[ j ].clear();
            asked[ k ] = asked[ j ]; asked[ j ].clear();
            outerAsked[ k ] = outerAsked[ j ]; outerAsked[ j ] = 0;
            valuesAsked[ k ] = valuesAsked[ j ]; valuesAsked[ j ] = 0;
            revive( a[ j ], j );
            break;
          case 1:
          {
            show( k, "copy constructed and back", 0 );
            AOA c( x );
            x.resize( 0 );
            SIM_CHECK( x.size() == 0, "wrong-size", "size %d after resizing to 0", int( x.size() ) );
            x = std::move( c );
            SIM_CHECK( c.size() == 0, "moved-from-not-empty", "size %d after moving out", int( c.size() ) );
            asked[ k ].assign( v.size(), 0 ); outerAsked[ k ] = 0; valuesAsked[ k ] = 0;
            break;
          }
          case 2:
          {
            show( k, "move constructed and back", 0 );
            AOA c( std::move( x ) );
            SIM_CHECK( x.size() == 0, "moved-from-not-empty", "size %d after moving out", int( x.size() ) );
            if( sim::chance( 1, 2 ) ) { x.resize( 2, 1 ); x.emplaceBack( 0, E::make( 5 ) ); sim::probe( "moved-from-reused" ); }
            x = std::move( c );
            break;
          }
          case 3:
          {
            show( k, "copied from a moved-from array", 0 );
            AOA c( std::move( x ) );
            AOA d( x );
            SIM_CHECK( d.size() == 0, "moved-from-not-empty", "size %d of the copy of a moved-from array", int( d.size() ) );
            if( sim::chance( 1, 2 ) ) d.appendArray( 1 );
            a[ j ] = x;
            m[ j ].clear(); asked[ j ].clear();
            x = std::move( c );
            break;
          }
          default:
          {
            show( k, "swapped with", j );
            std::swap( x, a[ j ] );
            std::swap( v, m[ j ] );
            std::swap( asked[ k ], asked[ j ] );
            std::swap( outerAsked[ k ], outerAsked[ j ] );
            std::swap( valuesAsked[ k ], valuesAsked[ j ] );
          }
        }
        break;
      }
      default:
      {
        show( k, "taken over from sets", 0 );
        LvArray::ArrayOfSets< T, IT, LvArray::MallocBuffer > s;
        std::vector< std::vector< Id > > w;
        int const c = sim::range( 0, 4 );
        for( int i = 0; i < c; ++i )
        {
          s.appendSet( IT( sim::range( 0, 2 ) ) );
          w.push_back( newIds( smallCount( 6 ) ) );
          for( std::size_t j = w.back().size(); j > 0; --j ) s.insertIntoSet( IT( i ), E::make( w.back()[ j - 1 ] ) );
        }
        x.assimilate( std::move( s ) );
        SIM_CHECK( s.size() == 0, "moved-from-not-empty", "%d sets remain after they were taken over", int( s.size() ) );
        v = w;
        asked[ k ].assign( v.size(), 0 ); outerAsked[ k ] = 0; valuesAsked[ k ] = 0;
        sim::probe( "assimilated" );
      }
    }
  }

  /// A moved-from container is resized before it is used again.
  void revive( AOA & x, int const j )
  {
    if( sim::chance( 1, 2 ) ) { x.resize( 0 ); sim::probe( "moved-from-reused" ); }
    else { AOA fresh; x = fresh; }
    asked[ j ].clear();
  }

  /// An operation on one inner array.
  void innerStep( int const k )
  {
    AOA & x = a[ k ];
    auto & v = m[ k ];
    int const n = int( v.size() );
    if( n == 0 ) { outerStep( k ); return; }
    int const i = int( sim::draw( std::uint32_t( n ) ) );
    auto & w = v[ std::size_t( i ) ];
    int const len = int( w.size() );
    int const room = maxIn - len;
    IT const at = IT( i );
    std::vector< int > before;
    for( int j = 0; j < n; ++j ) before.push_back( capOf( k, j ) );
    bool exact = false;
    {
      MayRelocate reloc;
      switch( sim::draw( 18 ) )
      {
        case 0: case 1: case 2:
          if( room < 1 ) break;
          show( k, "emplaceBack", i, next );
          w.push_back( next );
          emplaceBackSomehow( x, i );
          break;
        case 3:
        {
          if( room < 1 || len == 0 ) break;
          int const j = int( sim::draw( std::uint32_t( len ) ) );
          show( k, "emplaceBack own element", i, j );
          sim::probe( "own-element" );
          w.push_back( Id( w[ std::size_t( j ) ] ) );
          x.emplaceBack( at, x( at, IT( j ) ) );
          break;
        }
        case 4: case 5:
        {
          auto const ids = newIds( smallCount( room ) );
          show( k, "appendToArray", i, long( ids.size() ) );
          withRange( ids, [ & ]( auto const b, auto const e ) { x.appendToArray( at, b, e ); } );
          w.insert( w.end(), ids.begin(), ids.end() );
          break;
        }
        case 6:
        {
          if( room < 1 ) break;
          int const j = sim::range( 0, len );
          show( k, "emplace", i, j, next );
          if( len > 0 && sim::chance( 1, 4 ) )
          {
            int const o = int( sim::draw( std::uint32_t( len ) ) );
            sim::probe( "own-element" );
            Id const id = w[ std::size_t( o ) ];
            x.emplace( at, IT( j ), x( at, IT( o ) ) );
            w.insert( w.begin() + j, id );
            break;
          }
          x.emplace( at, IT( j ), E::make( next ) );
          w.insert( w.begin() + j, next++ );
          break;
        }
        case 7: case 8:
        {
          auto const ids = newIds( smallCount( room ) );
          int const j = sim::range( 0, len );
          show( k, "insertIntoArray", i, j, long( ids.size() ) );
          withRange( ids, [ & ]( auto const b, auto const e ) { x.insertIntoArray( at, IT( j ), b, e ); } );
          w.insert( w.begin() + j, ids.begin(), ids.end() );
          break;
        }
        case 9: case 10:
        {
          if( len == 0 ) break;
          int const j = int( sim::draw( std::uint32_t( len ) ) );
          int const c = sim::chance( 1, 2 ) ? 1 : sim::range( 0, len - j );
          show( k, "eraseFromArray", i, j, c );
          if( c == 1 && sim::chance( 1, 2 ) ) x.eraseFromArray( at, IT( j ) );
          else x.eraseFromArray( at, IT( j ), IT( c ) );
          w.erase( w.begin() + j, w.begin() + j + c );
          break;
        }
        case 11:
        {
          int const c = sim::range( 0, maxIn );
          show( k, "resizeArray", i, c );
          x.resizeArray( at, IT( c ) );
          w.resize( std::size_t( c ), defaultId< T >() );
          break;
        }
        case 12:
        {
          int const c = sim::range( 0, maxIn );
          if( len > 0 && sim::chance( 1, 2 ) )
          { // filled with a value that may be destroyed by the shrinking or moved by the growing
            int const o = int( sim::draw( std::uint32_t( len ) ) );
            show( k, "resizeArray with own value", i, c, o );
            sim::probe( "own-element" );
            Id const id = w[ std::size_t( o ) ];
            x.resizeArray( at, IT( c ), x( at, IT( o ) ) );
            w.resize( std::size_t( c ), id );
            break;
          }
          show( k, "resizeArray with value", i, c, next );
          x.resizeArray( at, IT( c ), E::make( next ) );
          w.resize( std::size_t( c ), next++ );
          break;
        }
        case 13:
          show( k, "clearArray", i );
          x.clearArray( at );
          w.clear();
          break;
        case 14: case 15:
        {
          int const c = sim::chance( 1, 4 ) ? len : sim::range( 0, maxIn );
          show( k, "setCapacityOfArray", i, c );
          x.setCapacityOfArray( at, IT( c ) );
          asked[ k ][ std::size_t( i ) ] = IT( c );
          SIM_CHECK( capOf( k, i ) == c, "wrong-capacity", "capacity %d after setting it to %d", capOf( k, i ), c );
          if( c < len ) { w.resize( std::size_t( c ) ); sim::probe( "capacity-cut" ); }
          exact = true;
          break;
        }
        case 16:
        { // overwrite through the three access paths
          if( len == 0 ) break;
          int const j = int( sim::draw( std::uint32_t( len ) ) );
          show( k, "overwrite", i, j, next );
          w[ std::size_t( j ) ] = next;
          switch( sim::draw( 4 ) )
          {
            case 0: x( at, IT( j ) ) = E::make( next ); break;
            case 1: x[ at ][ IT( j ) ] = E::make( next ); break;
            case 2: x.toView()( at, IT( j ) ) = E::make( next ); break;
            default: x.toViewConstSizes()[ at ][ IT( j ) ] = E::make( next );
          }
          ++next;
          break;
        }
        default:
        { // the operations of the view, which never grow
          auto const view = x.toView();
          int const free = std::min( room, capOf( k, i ) - len );
          sim::probe( "through-view" );
          switch( sim::draw( 5 ) )
          {
            case 0:
              if( free < 1 ) break;
              show( k, "view.emplaceBack", i, next );
              w.push_back( next );
              emplaceBackSomehow( view, i );
              break;
            case 1:
              if( free < 1 ) break;
              show( k, "view.emplaceBackAtomic", i, next );
              w.push_back( next );
              view.template emplaceBackAtomic< RAJA::seq_atomic >( at, E::make( next++ ) );
              break;
            case 2:
            {
              if( free < 1 ) break;
              int const j = sim::range( 0, len );
              show( k, "view.emplace", i, j, next );
              view.emplace( at, IT( j ), E::make( next ) );
              w.insert( w.begin() + j, next++ );
              break;
            }
            case 3:
            {
              if( free < 1 ) break;
              auto const ids = newIds( sim::range( 0, free ) );
              int const j = sim::range( 0, len );
              show( k, "view.insertIntoArray", i, j, long( ids.size() ) );
              withRange( ids, [ & ]( auto const b, auto const e ) { view.insertIntoArray( at, IT( j ), b, e ); } );
              w.insert( w.begin() + j, ids.begin(), ids.end() );
              if( int( ids.size() ) == free ) sim::probe( "filled-exactly" );
              break;
            }
            default:
            {
              if( len == 0 ) break;
              int const j = int( sim::draw( std::uint32_t( len ) ) );
              int const c = sim::range( 0, len - j );
              show( k, "view.eraseFromArray", i, j, c );
              view.eraseFromArray( at, IT( j ), IT( c ) );
              w.erase( w.begin() + j, w.begin() + j + c );
            }
          }
          SIM_CHECK( capOf( k, i ) == before[ std::size_t( i ) ], "wrong-capacity", "a view changed the capacity of array %d", i );
        }
      }
    }
    // Only setting the capacity and running out of room change a capacity, and only the one of this array.
    for( int j = 0; j < n; ++j )
    {
      int const c = capOf( k, j );
      bool const mayChange = j == i && ( exact || c > before[ std::size_t( j ) ] );
      SIM_CHECK( mayChange || c == before[ std::size_t( j ) ], "wrong-capacity", "the capacity of array %d changed from %d to %d by an operation on array %d",
                 j, before[ std::size_t( j ) ], c, i );
    }
  }

  void step()
  {
    sim::Span span;
    int const k = int( sim::draw( K ) );
    if( sim::chance( 1, 3 ) ) outerStep( k );
    else innerStep( k );
    if( m[ k ].size() > 1 ) sim::probe( "nontrivial" );
  }

  void verify( int const k )
  {
    AOA const & x = a[ k ];
    auto const & v = m[ k ];
    IT const n = IT( v.size() );
    SIM_CHECK( x.size() == n, "wrong-size", "%d inner arrays, expected %d", int( x.size() ), int( n ) );
    SIM_CHECK( x.capacity() >= n && x.capacity() >= outerAsked[ k ], "wrong-capacity", "outer capacity %d, size %d, reserved %d", int( x.capacity() ), int( n ), int( outerAsked[ k ] ) );
    auto const view = x.toViewConst();
    SIM_CHECK( view.size() == n, "wrong-size", "the view has %d inner arrays, expected %d", int( view.size() ), int( n ) );
    IT const valueCapacity = x.valueCapacity();
    SIM_CHECK( valueCapacity >= valuesAsked[ k ], "wrong-capacity", "room for %d values, reserved %d", int( valueCapacity ), int( valuesAsked[ k ] ) );
    IT end = 0;
    for( IT i = 0; i < n; ++i )
    {
      auto const & w = v[ std::size_t( i ) ];
      IT const len = IT( w.size() );
      SIM_CHECK( x.sizeOfArray( i ) == len, "wrong-size", "inner array %d has size %d, expected %d", int( i ), int( x.sizeOfArray( i ) ), int( len ) );
      IT const cap = x.capacityOfArray( i );
      SIM_CHECK( cap >= len && cap >= asked[ k ][ std::size_t( i ) ], "wrong-capacity", "inner array %d has capacity %d, size %d, asked for %d",
                 int( i ), int( cap ), int( len ), int( asked[ k ][ std::size_t( i ) ] ) );
      IT const offset = view.getOffsets()[ i ];
      SIM_CHECK( offset >= end && offset + cap <= valueCapacity, "overlap", "inner array %d occupies %d to %d, the one before ends at %d, there is room for %d",
                 int( i ), int( offset ), int( offset + cap ), int( end ), int( valueCapacity ) );
      end = offset + cap;
      auto const slice = x[ i ];
      SIM_CHECK( slice.size() == len, "wrong-size", "the slice of array %d has size %d, expected %d", int( i ), int( slice.size() ), int( len ) );
      for( IT j = 0; j < len; ++j )
      {
        Id const want = w[ std::size_t( j ) ];
        Id const got = E::id( x( i, j ) );
        SIM_CHECK( got == want, "wrong-value", "value %d of inner array %d is %lld, expected %lld of %s", int( j ), int( i ), (long long) got, (long long) want, scn::show( w ).c_str() );
        SIM_CHECK( &slice[ j ] == &x( i, j ) && &view[ i ][ j ] == &x( i, j ) && view.getValues() + offset + j == &x( i, j ), "wrong-address", "the access paths to value %d of array %d disagree", int( j ), int( i ) );
      }
    }
  }
  void verify() { for( int k = 0; k < K; ++k ) verify( k ); }
};

} // namespace scn
