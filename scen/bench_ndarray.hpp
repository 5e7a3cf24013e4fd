// Random valid histories on multidimensional arrays, compared with a map from multi-index to value.
#pragma once
#include "common.hpp"
#include <array>
#include <utility>

namespace scn
{

template< typename X, typename IDX, std::size_t... S >
auto & atIndices( X & x, IDX const & i, std::index_sequence< S... > )
{ return x( i[ S ] ... ); }

template< typename X, typename IDX, std::size_t... S >
auto linearOf( X & x, IDX const & i, std::index_sequence< S... > )
{ return x.linearIndex( i[ S ] ... ); }

template< typename X, typename IDX, std::size_t... S >
void resizeAll( X & x, IDX const & i, std::index_sequence< S... > )
{ x.resize( i[ S ] ... ); }

template< typename X, typename IDX, std::size_t... S >
void resizeAllWithoutInit( X & x, IDX const & i, std::index_sequence< S... > )
{ x.resizeWithoutInitializationOrDestruction( i[ S ] ... ); }

/// Reach an element through nested operator[].
template< typename X, typename IDX >
auto & nested( X const & x, IDX const & i, std::size_t const d, std::integral_constant< int, 1 > )
{ return x[ i[ d ] ]; }
template< typename X, typename IDX, int N >
auto & nested( X const & x, IDX const & i, std::size_t const d, std::integral_constant< int, N > )
{
  auto const s = x[ i[ d ] ];
  return nested( s, i, d + 1, std::integral_constant< int, N - 1 > {} );
}

template< int NDIM > struct Model
{
  std::array< int, NDIM > dims;
  std::vector< Id > v; // row major
  Model() { dims.fill( 0 ); }
  int size() const { int s = 1; for( int d : dims ) s *= d; return s; }
  int flat( std::array< int, NDIM > const & i ) const { int f = 0; for( int d = 0; d < NDIM; ++d ) f = f * dims[ d ] + i[ d ]; return f; }
  template< typename F > void each( F && f ) const
  {
    if( size() == 0 ) return;
    std::array< int, NDIM > i;
    i.fill( 0 );
    while( true )
    {
      f( i );
      int d = NDIM - 1;
      for( ; d >= 0; --d )
      {
        if( ++i[ d ] < dims[ d ] ) break;
        i[ d ] = 0;
      }
      if( d < 0 ) return;
    }
  }
};

template< typename T, int NDIM, typename PERM, typename OTHER_PERM, typename IT, template< typename > class BUFFER, int SIZE >
struct NdBench
{
  using ARRAY = LvArray::Array< T, NDIM, PERM, IT, BUFFER >;
  using OTHER = LvArray::Array< T, NDIM, OTHER_PERM, IT, LvArray::MallocBuffer >;
  using E = Elem< T >;
  using Index = std::array< int, NDIM >;
  using Seq = std::make_index_sequence< NDIM >;
  static constexpr int K = 2;
  static constexpr bool SHALLOW = BUFFER< T >::hasShallowCopy;
  ARRAY a[ K ];
  Model< NDIM > m[ K ];
  int spri[ K ] = { 0, 0 };
  Id next;
  int me;
  bool single;
  int maxSize = SIZE;

  NdBench( int const caller, bool const single_ ): next( 1 + 1000 * caller ), me( caller ), single( single_ )
  { if( SHALLOW && sim::chance( 1, 32 ) ) { maxSize = sizeof( IT ) < 4 ? 5000 : 400; sim::probe( "large" ); } }

  std::string text( Index const & i ) const { std::string s; for( int d : i ) s += ( s.empty() ? "(" : "," ) + std::to_string( d ); return s + ")"; }
  void show( int const k, char const * const what, long const x, long const y=0 )
  { sim::log( "%d: array%d%s of %s %s %ld %ld", me, k, text( m[ k ].dims ).c_str(), E::name(), what, x, y ); }

  Index drawDims()
  {
    Index i;
    do
    {
      int const far = maxSize > SIZE ? int( sim::draw( 2 * NDIM ) ) : NDIM;
      for( int d = 0; d < NDIM; ++d ) i[ d ] = d == far ? sim::range( 1, 80 ) : sim::chance( 1, 8 ) ? 0 : sim::range( 1, NDIM == 2 ? 6 : NDIM == 3 ? 4 : 3 );
      int s = 1;
      for( int d : i ) s *= d;
      if( s <= maxSize ) return i;
    } while( true );
  }

  /// Give every element a new value through a randomly chosen access path.
  void fill( int const k )
  {
    ARRAY & x = a[ k ];
    auto & mm = m[ k ];
    mm.v.assign( std::size_t( mm.size() ), 0 );
    int const how = int( sim::draw( 5 ) );
    auto const view = x.toView();
    auto const slice = x.toSlice();
    mm.each( [ & ]( Index const & i )
    {
      mm.v[ std::size_t( mm.flat( i ) ) ] = next;
      T const value = E::make( next++ );
      if( how == 0 || ( how == 4 && !SHALLOW ) ) atIndices( x, i, Seq {} ) = value;
      else if( how == 1 ) nested( x, i, 0, std::integral_constant< int, NDIM > {} ) = value;
      else if( how == 2 ) x.data()[ linearOf( x, i, Seq {} ) ] = value;
      else if( how == 3 ) atIndices( slice, i, Seq {} ) = value;
      else atIndices( view, i, Seq {} ) = value;
    } );
  }

  void singleResize( int const k, int const to, bool const withDefault )
  {
    ARRAY & x = a[ k ];
    auto & mm = m[ k ];
    Model< NDIM > now = mm;
    int const d = spri[ k ];
    now.dims[ std::size_t( d ) ] = to;
    if( now.size() > maxSize ) return;
    show( k, withDefault ? "resizeDefault dimension" : "resize dimension", d, to );
    Id const fresh = withDefault ? next++ : 0;
    now.v.assign( std::size_t( now.size() ), fresh );
    now.each( [ & ]( Index const & i ) { if( i[ std::size_t( d ) ] < mm.dims[ std::size_t( d ) ] && mm.size() > 0 ) now.v[ std::size_t( now.flat( i ) ) ] = mm.v[ std::size_t( mm.flat( i ) ) ]; } );
    if( withDefault ) x.resizeDefault( IT( to ), E::make( fresh ) );
    else x.resize( IT( to ) );
    if( mm.size() > 0 && now.size() > mm.size() ) sim::probe( "grown-in-place-of-shape" );
    if( now.size() > 0 && now.size() < mm.size() ) sim::probe( "shrunk" );
    mm = now;
  }

  template< typename POLICY > void setAll( int const k )
  {
    show( k, "setValues", next );
    std::fill( m[ k ].v.begin(), m[ k ].v.end(), next );
    a[ k ].template setValues< POLICY >( E::make( next++ ) );
  }

  template< typename U > std::enable_if_t< std::is_trivially_copyable< U >::value > trivialOp( int const k )
  {
    if( sim::chance( 1, 2 ) )
    {
      show( k, "zero", 0 );
      std::fill( m[ k ].v.begin(), m[ k ].v.end(), 0 );
      if( sim::chance( 1, 2 ) || !SHALLOW ) a[ k ].zero();
      else a[ k ].toView().zero();
    }
    else
    {
      Index const i = drawDims();
      show( k, "resizeWithoutInitializationOrDestruction", i[ 0 ] );
      resizeAllWithoutInit( a[ k ], i, Seq {} );
      m[ k ].dims = i;
      fill( k );
    }
  }
  template< typename U > std::enable_if_t< !std::is_trivially_copyable< U >::value > trivialOp( int const ) {}

  /// Views in every state: default constructed, assigned, moved.
  void views( int const k )
  {
    show( k, "views", 0 );
    ARRAY & x = a[ k ];
    auto const & mm = m[ k ];
    using View = std::remove_const_t< std::remove_reference_t< decltype( x.toView() ) > >;
    View const first = x.toView();
    View second;
    second = first;
    View third( std::move( second ) );
    View v;
    v = std::move( third );
    auto const c = v.toViewConst();
    SIM_CHECK( v.size() == x.size() && c.size() == x.size() && v.capacity() == x.capacity(), "wrong-size", "a view has %d values and capacity %d", int( v.size() ), int( v.capacity() ) );
    SIM_CHECK( v.getSingleParameterResizeIndex() == spri[ k ] && c.getSingleParameterResizeIndex() == spri[ k ], "wrong-resize-dimension", "a view has resize index %d, expected %d", v.getSingleParameterResizeIndex(), spri[ k ] );
    for( int d = 0; d < NDIM; ++d )
      SIM_CHECK( v.size( d ) == x.size( d ) && c.size( d ) == x.size( d ) && v.strides()[ d ] == x.strides()[ d ] && c.strides()[ d ] == x.strides()[ d ], "wrong-size", "a view differs from the array in dimension %d", d );
    mm.each( [ & ]( Index const & i )
    {
      Id const want = mm.v[ std::size_t( mm.flat( i ) ) ];
      SIM_CHECK( E::id( atIndices( v, i, Seq {} ) ) == want && E::id( atIndices( c, i, Seq {} ) ) == want, "wrong-value", "the value at %s seen through a view is wrong", text( i ).c_str() );
      if( SHALLOW ) SIM_CHECK( &atIndices( v, i, Seq {} ) == &atIndices( x, i, Seq {} ), "wrong-address", "a view leads elsewhere at %s", text( i ).c_str() );
    } );
    sim::probe( "views" );
  }

  /// The same memory seen as values of another size.
  template< typename U > void reinterpreted( int const k )
  {
    ARRAY & x = a[ k ];
    auto const & mm = m[ k ];
    static constexpr int USD = std::remove_reference_t< decltype( x.toView() ) >::USD;
    constexpr int SPLIT = sizeof( U ) < sizeof( T ) ? int( sizeof( T ) / sizeof( U ) ) : 1;
    constexpr int JOIN = sizeof( U ) > sizeof( T ) ? int( sizeof( U ) / sizeof( T ) ) : 1;
    if( mm.dims[ USD ] % JOIN != 0 ) return;
    if( mm.size() == 0 ) return;
    show( k, "reinterpreted", long( sizeof( U ) ) );
    auto const view = x.toView();
    LvArray::ArrayView< U, NDIM, USD, IT, BUFFER > const other( view );
    for( int d = 0; d < NDIM; ++d )
      SIM_CHECK( other.size( d ) == ( d == USD ? mm.dims[ std::size_t( d ) ] * SPLIT / JOIN : mm.dims[ std::size_t( d ) ] ), "wrong-size",
                 "dimension %d of the reinterpreted view has size %d, the array has %d", d, int( other.size( d ) ), mm.dims[ std::size_t( d ) ] );
    SIM_CHECK( std::size_t( other.capacity() ) * sizeof( U ) <= std::size_t( x.capacity() ) * sizeof( T ) && other.capacity() >= other.size(), "wrong-capacity",
               "the reinterpreted view has capacity %d, the array %d", int( other.capacity() ), int( x.capacity() ) );
    SIM_CHECK( other.getSingleParameterResizeIndex() == spri[ k ], "wrong-resize-dimension", "the reinterpreted view has another resize index" );
    mm.each( [ & ]( Index const & i )
    {
      Index j = i;
      j[ USD ] = i[ USD ] * SPLIT / JOIN;
      char const * const want = reinterpret_cast< char const * >( &atIndices( x, i, Seq {} ) );
      char const * const got = reinterpret_cast< char const * >( &atIndices( other, j, Seq {} ) ) + std::size_t( i[ USD ] % JOIN ) * sizeof( T );
      SIM_CHECK( got == want, "wrong-address", "the reinterpreted view leads elsewhere at %s", text( i ).c_str() );
    } );
    sim::probe( "reinterpreted" );
  }
  template< typename U > std::enable_if_t< std::is_trivially_copyable< U >::value && SHALLOW > reinterpret( int const k )
  {
    struct Pair { U a, b; };
    struct Quad { U a, b, c, d; };
    switch( sim::draw( 3 ) )
    {
      case 0: reinterpreted< Pair >( k ); break;
      case 1: reinterpreted< std::int16_t >( k ); break;
      default: reinterpreted< Quad >( k );
    }
  }
  template< typename U > std::enable_if_t< !( std::is_trivially_copyable< U >::value && SHALLOW ) > reinterpret( int const ) {}

  /// Several dimensions at once.
  void someDimensions( int const k )
  {
    ARRAY & x = a[ k ];
    auto & mm = m[ k ];
    Index const i = drawDims();
    Model< NDIM > t;
    t.dims = mm.dims;
    int const how = int( sim::draw( 3 ) );
    if( how == 0 ) t.dims[ 0 ] = i[ 0 ];
    else { t.dims[ 0 ] = i[ 0 ]; t.dims[ NDIM - 1 ] = i[ NDIM - 1 ]; }
    if( t.size() > maxSize ) return;
    show( k, "resizeDimension", how, i[ 0 ] );
    if( how == 0 ) x.template resizeDimension< 0 >( i[ 0 ] );
    else if( how == 1 ) x.template resizeDimension< 0, NDIM - 1 >( i[ 0 ], i[ NDIM - 1 ] );
    else x.template resizeDimension< NDIM - 1, 0 >( i[ NDIM - 1 ], i[ 0 ] );
    mm.dims = t.dims;
    fill( k );
  }

  /// The requested value is one of the array's own.
  void resizeToOwn( int const k )
  {
    ARRAY & x = a[ k ];
    auto & mm = m[ k ];
    if( mm.size() == 0 ) return;
    Model< NDIM > now = mm;
    std::size_t const d = std::size_t( spri[ k ] );
    now.dims[ d ] = sim::range( mm.dims[ d ], mm.dims[ d ] + 3 );
    if( now.size() > maxSize ) return;
    int const at = int( sim::draw( std::uint32_t( mm.size() ) ) );
    show( k, "resizeDefault to an own value", long( d ), now.dims[ d ] );
    Id const id = E::id( x.data()[ at ] );
    now.v.assign( std::size_t( now.size() ), id );
    now.each( [ & ]( Index const & i ) { if( i[ d ] < mm.dims[ d ] ) now.v[ std::size_t( now.flat( i ) ) ] = mm.v[ std::size_t( mm.flat( i ) ) ]; } );
    x.resizeDefault( IT( now.dims[ d ] ), x.data()[ at ] );
    mm = now;
    sim::probe( "own-element" );
  }

  void step()
  {
    sim::Span span;
    int const k = int( sim::draw( K ) );
    int const o = 1 - k;
    ARRAY & x = a[ k ];
    auto & mm = m[ k ];
    switch( sim::draw( 19 ) )
    {
      case 0: case 1:
      {
        Index const i = drawDims();
        show( k, "resize", i[ 0 ], i[ 1 ] );
        std::uint32_t const how = sim::draw( 2 );
        if( how == 0 ) resizeAll( x, i, Seq {} );
        else x.resize( NDIM, i.data() );
        mm.dims = i;
        fill( k );
        break;
      }
      case 2:
      {
        Index i = drawDims();
        for( int d = 0; d < NDIM - 1; ++d ) i[ d ] = mm.dims[ d ];
        Model< NDIM > t;
        t.dims = i;
        if( t.size() > maxSize ) break;
        show( k, "resizeDimension", NDIM - 1, i[ NDIM - 1 ] );
        x.template resizeDimension< NDIM - 1 >( i[ NDIM - 1 ] );
        mm.dims = i;
        fill( k );
        break;
      }
      case 3: case 4: case 5:
        singleResize( k, sim::range( 0, 7 ), sim::chance( 1, 2 ) );
        break;
      case 6:
        spri[ k ] = int( sim::draw( NDIM ) );
        show( k, "setSingleParameterResizeIndex", spri[ k ] );
        x.setSingleParameterResizeIndex( spri[ k ] );
        break;
      case 7:
        show( k, "clear", 0 );
        x.clear();
        mm.dims[ std::size_t( spri[ k ] ) ] = 0;
        mm.v.clear();
        break;
      case 8:
      {
        int const c = sim::range( 0, maxSize );
        show( k, "reserve", c );
        x.reserve( IT( c ) );
        SIM_CHECK( x.capacity() >= c, "wrong-capacity", "capacity %d after reserving %d", int( x.capacity() ), c );
        break;
      }
      case 9:
        show( k, "copy assigned from the other", 0 );
        x = static_cast< ARRAY const & >( a[ o ] );
        m[ k ] = m[ o ];
        spri[ k ] = spri[ o ];
        break;
      case 10:
      {
        std::uint32_t const how = sim::draw( 4 );
        if( how == 3 )
        {
          show( k, "move constructed and moved back", 0 );
          ARRAY taken( std::move( x ) );
          for( int d = 0; d < NDIM; ++d )
          {
            SIM_CHECK( x.size( d ) == 0, "moved-from-not-empty", "dimension %d of a moved-from array has length %d", d, int( x.size( d ) ) );
            SIM_CHECK( taken.size( d ) == mm.dims[ std::size_t( d ) ], "wrong-size", "dimension %d of the new owner has length %d, expected %d", d, int( taken.size( d ) ), mm.dims[ std::size_t( d ) ] );
          }
          SIM_CHECK( x.size() == 0, "moved-from-not-empty", "size %d after moving out", int( x.size() ) );
          x = std::move( taken );
        }
        else if( how == 0 )
        {
          show( k, "move assigned from the other", 0 );
          x = std::move( a[ o ] );
          m[ k ] = m[ o ];
          m[ o ] = Model< NDIM >();
          spri[ k ] = spri[ o ];
        }
        else if( how == 1 )
        {
          show( k, "swapped", 0 );
          std::swap( a[ 0 ], a[ 1 ] );
          std::swap( m[ 0 ], m[ 1 ] );
          std::swap( spri[ 0 ], spri[ 1 ] );
        }
        else
        {
          show( k, "copy constructed, cleared and moved back", 0 );
          ARRAY copy( x );
          x.clear();
          x = std::move( copy );
        }
        // a moved from array keeps its resize index
        if( how == 0 ) { spri[ o ] = int( sim::draw( NDIM ) ); a[ o ].setSingleParameterResizeIndex( spri[ o ] ); }
        break;
      }
      case 11:
        if( single && sim::chance( 1, 2 ) ) setAll< RAJA::omp_parallel_for_exec >( k );
        else setAll< RAJA::loop_exec >( k );
        break;
      case 12:
        trivialOp< T >( k );
        break;
      case 13:
      { // through another layout and back
        show( k, "copied through another layout", 0 );
        OTHER y;
        resizeAll( y, mm.dims, Seq {} );
        auto const target = y.toSlice();
        LvArray::forValuesInSliceWithIndices( x.toSliceConst(), [ & ]( T const & value, auto const ... i ) { target( i ... ) = value; } );
        std::size_t seen = 0;
        LvArray::forValuesInSlice( y.toSliceConst(), [ & ]( T const & value )
        {
          SIM_CHECK( seen < mm.v.size() && E::id( value ) == mm.v[ seen ], "wrong-order", "visiting value %zu of a copy in another layout gives the wrong one", seen );
          ++seen;
        } );
        SIM_CHECK( seen == mm.v.size(), "wrong-order", "visited %zu of %zu values", seen, mm.v.size() );
        sums( k, std::is_arithmetic< T > {} );
        if( mm.size() > 0 )
        {
          ARRAY same;
          resizeAll( same, mm.dims, Seq {} );
          LvArray::forValuesInSliceWithIndices( y.toSliceConst(), [ & ]( T const & value, auto const ... i ) { same( i ... ) = value; } );
          if( single && sim::chance( 1, 2 ) ) x.template setValues< RAJA::omp_parallel_for_exec >( same.toViewConst() );
          else x.template setValues< RAJA::loop_exec >( same.toViewConst() );
          sim::probe( "copied-between-layouts" );
        }
        break;
      }
      case 14: views( k ); break;
      case 15: reinterpret< T >( k ); break;
      case 16: someDimensions( k ); break;
      case 17: resizeToOwn( k ); break;
      default:
        if( mm.size() == 0 ) break;
        Index i;
        for( int d = 0; d < NDIM; ++d ) i[ d ] = int( sim::draw( std::uint32_t( mm.dims[ d ] ) ) );
        show( k, "write", mm.flat( i ), next );
        mm.v[ std::size_t( mm.flat( i ) ) ] = next;
        nested( x, i, 0, std::integral_constant< int, NDIM > {} ) = E::make( next++ );
    }
    if( m[ k ].size() > 1 ) sim::probe( "nontrivial" );
  }

  /// Adding up over the first dimension.
  void sums( int const, std::false_type ) {}
  void sums( int const k, std::true_type )
  {
    using LESS = std::conditional_t< NDIM == 2, RAJA::PERM_I, std::conditional_t< NDIM == 3, RAJA::PERM_JI, RAJA::PERM_JKI > >;
    auto const & mm = m[ k ];
    LvArray::Array< T, NDIM - 1, LESS, IT, LvArray::MallocBuffer > y;
    IT less[ NDIM - 1 ];
    IT n = 1;
    for( int d = 1; d < NDIM; ++d ) { less[ d - 1 ] = IT( mm.dims[ d ] ); n *= less[ d - 1 ]; }
    y.resize( NDIM - 1, less );
    for( IT j = 0; j < n; ++j ) y.data()[ j ] = E::make( 7 );
    sim::probe( "summed" );
    LvArray::sumOverFirstDimension( a[ k ].toSliceConst(), y.toSlice() );
    IT at = 0;
    LvArray::forValuesInSlice( y.toSliceConst(), [ & ]( T const & v )
    {
      Id sum = 7;
      for( int i = 0; i < mm.dims[ 0 ]; ++i ) sum += mm.v[ std::size_t( i * n + at ) ];
      SIM_CHECK( E::id( v ) == sum, "wrong-value", "the sum of column %d is %lld, expected %lld", int( at ), (long long) E::id( v ), (long long) sum );
      ++at;
    } );
    sumOne( a[ k ].toSliceConst(), k, std::integral_constant< int, NDIM > {}, 0 );
  }
  /// One column, down to a single value.
  template< typename S, int N > void sumOne( S const & s, int const k, std::integral_constant< int, N >, int const from )
  {
    if( s.size() == 0 ) return;
    int const i = int( sim::draw( std::uint32_t( s.size( 0 ) ) ) );
    sumOne( s[ IT( i ) ], k, std::integral_constant< int, N - 1 > {}, ( from + i ) * m[ k ].dims[ std::size_t( NDIM - N + 1 ) ] );
  }
  template< typename S > void sumOne( S const & s, int const k, std::integral_constant< int, 1 >, int const from )
  {
    Id sum = 3;
    T x = E::make( 3 );
    for( IT i = 0; i < s.size(); ++i ) sum += m[ k ].v[ std::size_t( from + i ) ];
    LvArray::sumOverFirstDimension( s, x );
    SIM_CHECK( E::id( x ) == sum, "wrong-value", "the sum of %d values is %lld, expected %lld", int( s.size() ), (long long) E::id( x ), (long long) sum );
  }

  void verify( int const k )
  {
    ARRAY const & x = a[ k ];
    auto const & mm = m[ k ];
    IT const n = IT( mm.size() );
    SIM_CHECK( x.size() == n && x.empty() == ( n == 0 ), "wrong-size", "size %d, expected %d", int( x.size() ), int( n ) );
    SIM_CHECK( x.capacity() >= n, "wrong-capacity", "capacity %d below the size %d", int( x.capacity() ), int( n ) );
    SIM_CHECK( x.getSingleParameterResizeIndex() == spri[ k ], "wrong-resize-dimension", "the single parameter resize index is %d, expected %d", x.getSingleParameterResizeIndex(), spri[ k ] );
    auto const slice = x.toSlice();
    auto const cview = x.toViewConst();
    for( int d = 0; d < NDIM; ++d )
      SIM_CHECK( x.size( d ) == mm.dims[ d ] && x.dims()[ d ] == mm.dims[ d ] && slice.size( d ) == mm.dims[ d ] && cview.size( d ) == mm.dims[ d ],
                 "wrong-size", "dimension %d has size %d, expected %d", d, int( x.size( d ) ), mm.dims[ d ] );
    IT stride = 1;
    for( int d = NDIM - 1; d >= 0; --d )
    {
      auto const at = LvArray::typeManipulation::asArray( PERM {} )[ d ];
      SIM_CHECK( x.strides()[ at ] == stride && slice.stride( int( at ) ) == stride, "wrong-stride", "dimension %d of %s has stride %d, expected %d", int( at ), text( mm.dims ).c_str(), int( x.strides()[ at ] ), int( stride ) );
      stride *= IT( mm.dims[ std::size_t( at ) ] );
    }
    SIM_CHECK( slice.size() == n && slice.isContiguous() && slice.dataIfContiguous() == x.data() && slice.end() - slice.begin() == n, "wrong-size", "the slice of the whole array is wrong" );
    if( n == 0 ) return;
    std::vector< char > used( std::size_t( n ), 0 );
    int const path = int( sim::draw( 5 ) );
    mm.each( [ & ]( Index const & i )
    {
      IT const l = linearOf( x, i, Seq {} );
      SIM_CHECK( l >= 0 && l < n, "wrong-address", "index %s lies outside the array", text( i ).c_str() );
      SIM_CHECK( !used[ std::size_t( l ) ], "wrong-address", "index %s shares its place with another one", text( i ).c_str() );
      used[ std::size_t( l ) ] = 1;
      IT s = 0;
      for( int d = 0; d < NDIM; ++d ) s += IT( i[ d ] ) * x.strides()[ d ];
      SIM_CHECK( s == l, "wrong-address", "the strides do not lead to index %s", text( i ).c_str() );
      T const * const p = path == 0 ? &atIndices( x, i, Seq {} ) : path == 1 ? &nested( x, i, 0, std::integral_constant< int, NDIM > {} ) :
                          path == 2 ? &atIndices( slice, i, Seq {} ) : path == 3 && SHALLOW ? &atIndices( cview, i, Seq {} ) : x.data() + l;
      SIM_CHECK( p == x.data() + l, "wrong-address", "access path %d leads elsewhere for index %s", path, text( i ).c_str() );
      Id const got = E::id( *p );
      SIM_CHECK( got == mm.v[ std::size_t( mm.flat( i ) ) ], "wrong-value", "value at %s is %lld, expected %lld", text( i ).c_str(), (long long) got, (long long) mm.v[ std::size_t( mm.flat( i ) ) ] );
    } );
    // parts of the array
    auto const part = slice[ IT( sim::draw( std::uint32_t( mm.dims[ 0 ] ) ) ) ];
    checkPart( part, std::integral_constant< int, NDIM - 1 > {} );
  }

  template< typename S, int N > void checkPart( S const & s, std::integral_constant< int, N > )
  {
    SIM_CHECK( s.isContiguous() || !rowMajor, "wrong-contiguity", "a part of an array in which the first index is slowest is not contiguous" );
    if( !s.isContiguous() ) return;
    sim::probe( "contiguous-part" );
    T const * lo = nullptr;
    T const * hi = nullptr;
    IT count = 0;
    LvArray::forValuesInSlice( s, [ & ]( T const & v )
    {
      if( lo == nullptr || &v < lo ) lo = &v;
      if( hi == nullptr || &v > hi ) hi = &v;
      ++count;
    } );
    SIM_CHECK( count == s.size() && ( count == 0 || hi - lo + 1 == count ), "wrong-contiguity", "a part that claims to be contiguous is not" );
    pointers( s, lo, count );
  }
  static constexpr bool rowMajor = LvArray::typeManipulation::asArray( PERM {} )[ 0 ] == 0;
  template< typename U, int N, int USD > std::enable_if_t< ( USD >= 0 ) > pointers( LvArray::ArraySlice< U, N, USD, IT > const & s, T const * const lo, IT const count )
  {
    if( count == 0 ) return;
    SIM_CHECK( s.dataIfContiguous() == lo && s.begin() == lo && s.end() == lo + count, "wrong-address", "the pointers of a contiguous part lead elsewhere" );
  }
  template< typename S > void pointers( S const &, ... ) {}
  template< typename S > void checkPart( S const &, std::integral_constant< int, 0 > ) {}

  void verify() { for( int k = 0; k < K; ++k ) verify( k ); }
};

template< typename T > using StackBuffer40 = LvArray::StackBuffer< T, 40 >;

} // namespace scn
