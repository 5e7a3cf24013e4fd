// Random valid histories on sorted arrays, compared with std::set after every operation.
#pragma once
#include "common.hpp"
#include <set>

namespace scn
{

template< typename T, typename ARRAY, int LEN, bool STACK >
struct SortedBench
{
  using IT = typename ARRAY::IndexType;
  using E = Elem< T >;
  static constexpr int K = 2;
  ARRAY a[ K ];
  std::set< Id > m[ K ];
  int me;
  int universe;
  int maxLen = LEN;
  bool large() const { return maxLen > LEN; }

  explicit SortedBench( int const caller ): me( caller ) {
    universe = sim::chance( 1, 3 ) ? 12 : 60;
    if( !STACK && sim::chance( 1, 32 ) ) { maxLen = 400; universe = 700; sim::probe( "large" ); }
  }

  Id drawId() { return 1 + Id( sim::draw( std::uint32_t( universe ) ) ); }
  void show( int const k, char const * const what, long const x, long const y=0 )
  { sim::log( "%d: sorted%d(%zu of %s) %s %ld %ld", me, k, m[ k ].size(), E::name(), what, x, y ); }

  /// A sorted range of unique values, biased to the interesting places.
  std::set< Id > drawRange( int const k, int const limit )
  {
    std::set< Id > s;
    int const style = int( sim::draw( 4 ) );
    if( style == 0 ) { while( int( s.size() ) < limit && sim::more( large() ? 60 : 5 ) ) s.insert( drawId() ); }
    else if( style == 1 )
    { // a run of consecutive values
      Id const from = drawId();
      int const n = sim::range( 0, large() ? 120 : 8 );
      for( Id i = from; i < from + n && int( s.size() ) < limit; ++i ) s.insert( i );
    }
    else if( style == 2 )
    { // mostly existing ones
      for( Id const i : m[ k ] ) if( sim::chance( 1, 2 ) && int( s.size() ) < limit ) s.insert( i );
      if( int( s.size() ) < limit ) s.insert( drawId() );
    }
    else
    { // beyond both ends
      for( int i = 0; i < 2 && int( s.size() ) < limit; ++i ) s.insert( m[ k ].empty() ? drawId() : *m[ k ].rbegin() + 1 + i );
      if( !m[ k ].empty() && *m[ k ].begin() > 1 && int( s.size() ) < limit ) s.insert( *m[ k ].begin() - 1 );
    }
    return s;
  }

  template< typename F > auto withRange( std::set< Id > const & ids, F && f )
  { // as pointers, or as set iterators
    if( sim::chance( 1, 2 ) )
    {
      std::set< T > s;
      for( Id const i : ids ) s.insert( E::make( i ) );
      return f( s.begin(), s.end() );
    }
    std::vector< T > v;
    v.reserve( ids.size() );
    for( Id const i : ids ) v.push_back( E::make( i ) );
    T const * const p = v.data();
    return f( p, p + v.size() );
  }

  void step()
  {
    sim::Span span;
    int const k = int( sim::draw( K ) );
    ARRAY & x = a[ k ];
    auto & s = m[ k ];
    int const n = int( s.size() );
    switch( sim::draw( 16 ) )
    {
      case 0: case 1: case 2:
      {
        Id const i = drawId();
        bool const fresh = s.count( i ) == 0;
        if( fresh && n >= maxLen ) break;
        show( k, "insert", i );
        bool const got = x.insert( E::make( i ) );
        SIM_CHECK( got == fresh, "wrong-answer", "inserting %lld answers %d", (long long) i, int( got ) );
        s.insert( i );
        break;
      }
      case 3: case 4: case 5: case 6:
      {
        std::set< Id > const r = drawRange( k, maxLen - n );
        int fresh = 0;
        for( Id const i : r ) fresh += s.count( i ) == 0;
        show( k, "insert range", long( r.size() ), fresh );
        long const got = withRange( r, [ & ]( auto const b, auto const e ) { return long( x.insert( b, e ) ); } );
        SIM_CHECK( got == fresh, "wrong-answer", "inserting %d new values answers %ld", fresh, got );
        s.insert( r.begin(), r.end() );
        if( fresh > 1 && n > 0 ) sim::probe( "merged-range" );
        break;
      }
      case 7: case 8:
      {
        Id const i = n > 0 && sim::chance( 1, 2 ) ? *std::next( s.begin(), int( sim::draw( std::uint32_t( n ) ) ) ) : drawId();
        bool const there = s.count( i ) == 1;
        show( k, "remove", i );
        bool const got = x.remove( E::make( i ) );
        SIM_CHECK( got == there, "wrong-answer", "removing %lld answers %d", (long long) i, int( got ) );
        s.erase( i );
        break;
      }
      case 9: case 10:
      {
        std::set< Id > const r = drawRange( k, 450 );
        int there = 0;
        for( Id const i : r ) there += int( s.erase( i ) );
        show( k, "remove range", long( r.size() ), there );
        long const got = withRange( r, [ & ]( auto const b, auto const e ) { return long( x.remove( b, e ) ); } );
        SIM_CHECK( got == there, "wrong-answer", "removing %d values answers %ld", there, got );
        if( there > 1 ) sim::probe( "removed-range" );
        break;
      }
      case 11:
      {
        if( n == 0 ) break;
        int const j = int( sim::draw( std::uint32_t( n ) ) );
        show( k, "remove own element", j );
        sim::probe( "own-element" );
        s.erase( std::next( s.begin(), j ) );
        bool const got = x.remove( x[ IT( j ) ] );
        SIM_CHECK( got, "wrong-answer", "an element of the array was not found" );
        break;
      }
      case 12:
        if( sim::chance( 1, 2 ) ) { show( k, "clear", 0 ); s.clear(); x.clear(); }
        else { int const c = sim::range( 0, maxLen ); show( k, "reserve", c ); x.reserve( IT( c ) ); }
        break;
      case 13:
      {
        int const j = int( sim::draw( K ) );
        show( k, "copy assigned from", j );
        x = static_cast< ARRAY const & >( a[ j ] );
        if( j != k ) s = m[ j ];
        break;
      }
      case 14:
      {
        int const j = 1 - k;
        std::uint32_t const how = sim::draw( 4 );
        if( how == 0 ) { show( k, "move assigned from", j ); x = std::move( a[ j ] ); s = m[ j ]; m[ j ].clear(); }
        else if( how == 1 ) { show( k, "swapped with", j ); std::swap( x, a[ j ] ); std::swap( s, m[ j ] ); }
        else if( how == 2 ) { show( k, "copy constructed and back", 0 ); ARRAY c( x ); x.clear(); x = std::move( c ); }
        else
        {
          show( k, "move constructed and back", 0 );
          ARRAY c( std::move( x ) );
          SIM_CHECK( x.size() == 0, "moved-from-not-empty", "size %d after moving out", int( x.size() ) );
          if( sim::chance( 1, 2 ) ) { x.insert( E::make( drawId() ) ); sim::probe( "moved-from-reused" ); }
          x = std::move( c );
        }
        break;
      }
      default:
      { // everything of the other array
        int const j = 1 - k;
        std::set< Id > u( s );
        u.insert( m[ j ].begin(), m[ j ].end() );
        if( int( u.size() ) > maxLen ) break;
        show( k, "insert all of the other", long( m[ j ].size() ) );
        long const got = x.insert( a[ j ].begin(), a[ j ].end() );
        SIM_CHECK( got == long( u.size() ) - n, "wrong-answer", "inserting %ld new values answers %ld", long( u.size() ) - n, got );
        s = u;
      }
    }
    if( m[ k ].size() > 1 ) sim::probe( "nontrivial" );
  }

  void verify( int const k )
  {
    ARRAY const & x = a[ k ];
    auto const & s = m[ k ];
    IT const n = IT( s.size() );
    SIM_CHECK( x.size() == n && x.empty() == ( n == 0 ), "wrong-size", "size %d, expected %d", int( x.size() ), int( n ) );
    SIM_CHECK( x.end() - x.begin() == n && x.begin() == x.data(), "wrong-size", "the iterators do not span the values" );
    IT i = 0;
    for( Id const id : s )
    {
      Id const got = E::id( x[ i ] );
      SIM_CHECK( got == id, "wrong-value", "value %d is %lld, expected %lld of %s", int( i ), (long long) got, (long long) id, scn::show( std::vector< Id >( s.begin(), s.end() ) ).c_str() );
      ++i;
    }
    for( int r = 0; r < 2; ++r )
    {
      Id const q = drawId();
      bool const got = x.contains( E::make( q ) );
      SIM_CHECK( got == ( s.count( q ) == 1 ) && bool( x.count( E::make( q ) ) ) == got, "wrong-answer", "contains( %lld ) answers %d", (long long) q, int( got ) );
    }
  }
  void verify() { for( int k = 0; k < K; ++k ) verify( k ); }
};

template< typename T > using StackBuffer20 = LvArray::StackBuffer< T, 20 >;
template< typename T, typename IT=I >
using HeapSortedBench = SortedBench< T, LvArray::SortedArray< T, IT, LvArray::MallocBuffer >, 40, false >;
template< typename T, typename IT=I >
using StackSortedBench = SortedBench< T, LvArray::SortedArray< T, IT, StackBuffer20 >, 20, true >;

} // namespace scn
