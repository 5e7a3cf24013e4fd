// Random valid histories on one dimensional arrays, compared with std::vector after every operation.
#pragma once
#include "common.hpp"
#include <list>
#include <forward_list>

namespace scn
{

template< typename T, typename ARRAY, int LEN, bool STACK >
struct ArrayBench
{
  using IT = std::remove_const_t< std::remove_reference_t< decltype( std::declval< ARRAY >().dims()[ 0 ] ) > >;
  using E = Elem< T >;
  static constexpr int K = 3;

  ARRAY a[ K ];
  std::vector< Id > m[ K ];
  IT reserved[ K ] = { 0, 0, 0 };
  Id next = 1;
  int me;
  bool resizedHuge = false;
  int maxLen = LEN;
  bool large() const { return maxLen > LEN; }

  explicit ArrayBench( int const caller ): me( caller ) {
    next = 1 + 1000 * caller;
    if( !STACK && sim::chance( 1, 32 ) ) { maxLen = sizeof( IT ) < 4 ? 6000 : 400; sim::probe( "large" ); } // more bytes than 16 bits can count
  }

  int smallCount() const { return sim::chance( 1, large() ? 2 : 8 ) ? sim::range( 0, maxLen ) : sim::range( 0, maxLen < 6 ? maxLen : 6 ); }

  void show( int const k, char const * const what, long const x, long const y )
  { sim::log( "%d: array%d(%zu of %s) %s %ld %ld", me, k, m[ k ].size(), E::name(), what, x, y ); }

  void values( int const n, std::vector< T > & v, std::vector< Id > & ids )
  {
    for( int i = 0; i < n; ++i ) { ids.push_back( next ); v.push_back( E::make( next++ ) ); }
  }

  /// Operations for elements that are plain bytes.
  template< typename U > std::enable_if_t< std::is_trivially_copyable< U >::value && std::is_trivially_default_constructible< U >::value > trivialOp( int const k )
  {
    ARRAY & x = a[ k ];
    std::vector< Id > & v = m[ k ];
    if( sim::chance( 1, 2 ) )
    {
      show( k, "zero", 0, 0 );
      v.assign( v.size(), 0 );
      if( sim::chance( 1, 2 ) || STACK ) x.zero();
      else x.toView().zero();
    }
    else
    {
      int const to = smallCount(), n = int( v.size() );
      show( k, "resizeWithoutInitializationOrDestruction", to, 0 );
      x.resizeWithoutInitializationOrDestruction( to );
      v.resize( std::size_t( to ) );
      SIM_CHECK( int( x.size() ) == to, "wrong-size", "size %d after resizing to %d", int( x.size() ), to );
      for( int i = n; i < to; ++i )
      {
        v[ std::size_t( i ) ] = next;
        x[ IT( i ) ] = E::make( next++ );
      }
    }
    sim::probe( "plain-bytes" );
  }
  template< typename U > std::enable_if_t< !( std::is_trivially_copyable< U >::value && std::is_trivially_default_constructible< U >::value ) > trivialOp( int const ) {}

  /// Views in every state: default constructed, assigned, moved, converted.
  void views( int const k )
  {
    ARRAY & x = a[ k ];
    std::vector< Id > & v = m[ k ];
    int const n = int( v.size() );
    show( k, "views", 0, 0 );
    using View = std::remove_const_t< std::remove_reference_t< decltype( x.toView() ) > >;
    View const first = x.toView();
    View second;
    SIM_CHECK( second.size() == 0 && second.empty(), "wrong-size", "a view of nothing has %d values", int( second.size() ) );
    second = first;
    View third( std::move( second ) );
    View fourth;
    fourth = std::move( third );
    auto const constant = fourth.toViewConst();
    SIM_CHECK( fourth.size() == IT( n ) && constant.size() == IT( n ) && fourth.size( 0 ) == IT( n ), "wrong-size", "a view has %d values, expected %d", int( fourth.size() ), n );
    SIM_CHECK( fourth.capacity() == x.capacity(), "wrong-capacity", "a view has capacity %d, the array %d", int( fourth.capacity() ), int( x.capacity() ) );
    SIM_CHECK( fourth.getSingleParameterResizeIndex() == x.getSingleParameterResizeIndex() && constant.getSingleParameterResizeIndex() == x.getSingleParameterResizeIndex(),
               "wrong-resize-dimension", "a view has another resize index" );
    if( !STACK ) SIM_CHECK( fourth.data() == x.data() && constant.data() == x.data(), "wrong-address", "a view does not refer to the values of the array" );
    int i = 0;
    for( T const & e : constant )
    {
      SIM_CHECK( i < n && E::id( e ) == v[ std::size_t( i ) ], "wrong-value", "value %d seen through a view is wrong", i );
      ++i;
    }
    SIM_CHECK( i == n, "wrong-size", "iterating over a view visited %d of %d values", i, n );
    if( n > 0 && !STACK )
    {
      int const j = int( sim::draw( std::uint32_t( n ) ) );
      v[ std::size_t( j ) ] = next;
      ( sim::chance( 1, 2 ) ? fourth[ IT( j ) ] : fourth( IT( j ) ) ) = E::make( next++ );
    }
    sim::probe( "views" );
  }

  /// One random operation that a std::vector would accept too.
  void step()
  {
    sim::Span span;
    int const k = int( sim::draw( K ) );
    ARRAY & x = a[ k ];
    std::vector< Id > & v = m[ k ];
    int const n = int( v.size() );
    switch( sim::draw( 25 ) )
    {
      case 0: case 1:
        if( n >= maxLen ) break;
        show( k, "emplace_back", next, 0 );
        v.push_back( next );
        x.emplace_back( E::make( next++ ) );
        break;
      case 2:
      {
        if( n >= maxLen ) break;
        show( k, "emplace_back lvalue", next, 0 );
        T const value( E::make( next ) );
        v.push_back( next++ );
        x.emplace_back( value );
        break;
      }
      case 3:
      { // the argument is an element of the array itself
        if( n == 0 || n >= maxLen ) break;
        int const j = int( sim::draw( std::uint32_t( n ) ) );
        show( k, "emplace_back own element", j, 0 );
        sim::probe( "own-element" );
        v.push_back( Id( v[ std::size_t( j ) ] ) );
        x.emplace_back( x[ IT( j ) ] );
        break;
      }
      case 4: case 5:
      {
        if( n >= maxLen ) break;
        int const pos = sim::range( 0, n );
        show( k, "emplace", pos, next );
        v.insert( v.begin() + pos, next );
        x.emplace( IT( pos ), E::make( next++ ) );
        break;
      }
      case 6:
      {
        if( n == 0 || n >= maxLen ) break;
        int const pos = sim::range( 0, n );
        int const j = int( sim::draw( std::uint32_t( n ) ) );
        show( k, "emplace own element", pos, j );
        sim::probe( "own-element" );
        Id const id = v[ std::size_t( j ) ];
        v.insert( v.begin() + pos, id );
        x.emplace( IT( pos ), x[ IT( j ) ] );
        break;
      }
      case 7: case 8:
      {
        int count = smallCount();
        if( n + count > maxLen ) count = maxLen - n;
        int const pos = sim::range( 0, n );
        std::vector< T > vals;
        std::vector< Id > ids;
        values( count, vals, ids );
        int const how = int( sim::draw( 3 ) );
        if( STACK && count == 0 && n == 0 ) break;
        show( k, how == 0 ? "insert pointers" : how == 1 ? "insert list" : "insert vector", pos, count );
        v.insert( v.begin() + pos, ids.begin(), ids.end() );
        if( how == 0 ) x.insert( IT( pos ), vals.data(), vals.data() + count );
        else if( how == 1 )
        {
          std::list< T > l( vals.begin(), vals.end() );
          x.insert( IT( pos ), l.begin(), l.end() );
        }
        else x.insert( IT( pos ), vals.begin(), vals.end() );
        break;
      }
      case 9:
        if( n == 0 ) break;
        show( k, "pop_back", 0, 0 );
        v.pop_back();
        x.pop_back();
        break;
      case 10: case 11:
      {
        if( n == 0 ) break;
        int const pos = int( sim::draw( std::uint32_t( n ) ) );
        show( k, "erase", pos, 0 );
        v.erase( v.begin() + pos );
        x.erase( IT( pos ) );
        break;
      }
      case 12: case 13:
      {
        int const to = sim::chance( 1, 4 ) ? n + ( maxLen - n ? sim::range( 0, 1 ) : 0 ) : smallCount();
        int const how = int( sim::draw( 3 ) );
        show( k, how == 0 ? "resize" : how == 1 ? "resize dims" : "resizeDimension", to, 0 );
        v.resize( std::size_t( to ), 0 );
        if( how == 0 ) x.resize( IT( to ) );
        else if( how == 1 ) { long const d = to; x.resize( 1, &d ); }
        else x.template resizeDimension< 0 >( to );
        break;
      }
      case 14:
      {
        int const to = smallCount();
        show( k, "resizeDefault", to, next );
        v.resize( std::size_t( to ), next );
        x.resizeDefault( IT( to ), E::make( next++ ) );
        break;
      }
      case 15:
      {
        int const to = smallCount();
        if( n == 0 ) break;
        int const j = int( sim::draw( std::uint32_t( n ) ) );
        if( to < n && j >= to ) break; // the element itself would go away
        show( k, "resizeDefault own element", to, j );
        sim::probe( "own-element" );
        Id const id = v[ std::size_t( j ) ];
        v.resize( std::size_t( to ), id );
        x.resizeDefault( IT( to ), x[ IT( j ) ] );
        break;
      }
      case 16:
      {
        int const to = smallCount();
        show( k, "reserve", to, 0 );
        x.reserve( IT( to ) );
        if( to > reserved[ k ] ) reserved[ k ] = IT( to );
        SIM_CHECK( x.capacity() >= to, "wrong-capacity", "capacity %d after reserving %d", int( x.capacity() ), to );
        break;
      }
      case 17:
        show( k, "clear", 0, 0 );
        v.clear();
        x.clear();
        break;
      case 18:
      {
        int const j = int( sim::draw( K ) );
        show( k, "copy assigned from", j, 0 );
        if( j == k ) sim::probe( "self-assignment" );
        if( j != k ) v = m[ j ];
        ARRAY const & src = a[ j ];
        x = src;
        break;
      }
      case 19:
      { // move assignment, or through a temporary
        int const j = int( sim::draw( K ) );
        if( j == k ) break;
        if( sim::chance( 1, 2 ) )
        {
          show( k, "move assigned from", j, 0 );
          x = std::move( a[ j ] );
          v = m[ j ];
          m[ j ].clear();
          reserved[ k ] = reserved[ j ];
          reserved[ j ] = 0;
        }
        else
        {
          show( k, "swapped with", j, 0 );
          std::swap( x, a[ j ] );
          std::swap( v, m[ j ] );
          std::swap( reserved[ k ], reserved[ j ] );
        }
        if( STACK ) reserved[ k ] = reserved[ j ] = 0;
        break;
      }
      case 20:
        if( sim::chance( 1, 2 ) )
        {
          show( k, "copy constructed and moved back", 0, 0 );
          ARRAY copy( x );
          if( n > 0 )
          {
            x[ 0 ] = E::make( next );
            SIM_CHECK( E::id( copy[ 0 ] ) == v[ 0 ], "copy-not-deep", "writing to the source of a copy changed the copy" );
            ++next;
          }
          x = std::move( copy );
          reserved[ k ] = 0;
        }
        else
        {
          show( k, "move constructed and moved back", 0, 0 );
          ARRAY taken( std::move( x ) );
          SIM_CHECK( x.size() == 0 && x.empty(), "moved-from-not-empty", "size %d after moving out", int( x.size() ) );
          SIM_CHECK( int( taken.size() ) == n, "wrong-size", "size %d in the new owner, expected %d", int( taken.size() ), n );
          if( sim::chance( 1, 2 ) ) { x.emplace_back( E::make( next++ ) ); sim::probe( "moved-from-reused" ); }
          x = std::move( taken );
        }
        break;
      case 21:
        trivialOp< T >( k );
        break;
      case 22:
        views( k );
        break;
      case 23:
      { // the values of another array of the same length
        int const j = int( sim::draw( K ) );
        if( m[ j ].size() != v.size() || j == k )
        {
          if( n == 0 ) break;
          show( k, "setValues from a copy in reverse", 0, 0 );
          ARRAY other( x );
          std::reverse( v.begin(), v.end() );
          for( int i = 0; i < n; ++i ) other[ IT( i ) ] = E::make( v[ std::size_t( i ) ] );
          x.template setValues< RAJA::loop_exec >( other.toViewConst() );
          break;
        }
        show( k, "setValues from", j, 0 );
        v = m[ j ];
        x.template setValues< RAJA::loop_exec >( a[ j ].toViewConst() );
        break;
      }
      default:
      {
        if( n == 0 ) break;
        if( sim::chance( 1, 4 ) )
        {
          show( k, "setValues", next, 0 );
          std::fill( v.begin(), v.end(), next );
          x.template setValues< RAJA::loop_exec >( E::make( next++ ) );
        }
        else
        {
          int const j = int( sim::draw( std::uint32_t( n ) ) );
          show( k, "write", j, next );
          v[ std::size_t( j ) ] = next;
          x[ IT( j ) ] = E::make( next++ );
        }
      }
    }
    if( !v.empty() && n > 0 ) sim::probe( "nontrivial" );
    if( int( m[ k ].size() ) == maxLen ) sim::probe( "full" );
  }

  void verify( int const k )
  {
    ARRAY const & x = a[ k ];
    std::vector< Id > const & v = m[ k ];
    IT const n = IT( v.size() );
    SIM_CHECK( x.size() == n && x.size( 0 ) == n && x.dims()[ 0 ] == n, "wrong-size", "size %d, expected %d", int( x.size() ), int( n ) );
    SIM_CHECK( x.empty() == v.empty(), "wrong-size", "empty() is wrong" );
    SIM_CHECK( x.capacity() >= n, "wrong-capacity", "capacity %d below the size %d", int( x.capacity() ), int( n ) );
    SIM_CHECK( x.capacity() >= reserved[ k ], "wrong-capacity", "capacity %d but %d were reserved", int( x.capacity() ), int( reserved[ k ] ) );
    for( IT i = 0; i < n; ++i )
    {
      Id const got = E::id( x[ i ] );
      SIM_CHECK( got == v[ std::size_t( i ) ], "wrong-value", "value %d is %lld, expected %lld of %s", int( i ), (long long) got, (long long) v[ std::size_t( i ) ], scn::show( v ).c_str() );
    }
    if( n > 0 )
    {
      SIM_CHECK( &x( IT( n - 1 ) ) == x.data() + ( n - 1 ) && x.end() - x.begin() == n && &x.front() == x.data() && &x.back() == &x[ n - 1 ],
                 "wrong-address", "the access paths do not agree" );
    }
  }
  void verify() { for( int k = 0; k < K; ++k ) verify( k ); }
};

template< typename T, typename IT=I >
using HeapArrayBench = ArrayBench< T, LvArray::Array< T, 1, RAJA::PERM_I, IT, LvArray::MallocBuffer >, 24, false >;

template< typename T, typename IT=I >
using StackArrayBench = ArrayBench< T, LvArray::StackArray< T, 1, RAJA::PERM_I, IT, 11 >, 11, true >;

} // namespace scn
