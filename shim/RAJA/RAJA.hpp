// Minimal stand-in for RAJA: the policies, loops, scans, atomics and permutations LvArray uses. Under the simulator
// (LVSIM) a host parallel loop is a team of simulated threads and a device loop is a set of simulated device threads,
// interleaved by the simulator at every memory access; otherwise everything runs in order on the calling thread.
#pragma once

#include "camp/camp.hpp"
#include "camp/resource.hpp"

#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

#if defined( LVSIM )
  #include "sim.hpp"
  #define LVSIM_NOINSTR SIM_NOINSTR
#else
  #define LVSIM_NOINSTR
#endif

#define RAJA_VERSION_MAJOR 2022
#define RAJA_VERSION_MINOR 3
#define RAJA_VERSION_PATCHLEVEL 0
#define RAJA_ENABLE_OPENMP
#define RAJA_HOST_DEVICE

namespace RAJA
{

using Index_type = std::ptrdiff_t;
using camp::idx_t;

// ------------------------------------------------------------------ permutations
using PERM_I = camp::idx_seq< 0 >;
using PERM_IJ = camp::idx_seq< 0, 1 >;
using PERM_JI = camp::idx_seq< 1, 0 >;
using PERM_IJK = camp::idx_seq< 0, 1, 2 >;
using PERM_IKJ = camp::idx_seq< 0, 2, 1 >;
using PERM_JIK = camp::idx_seq< 1, 0, 2 >;
using PERM_JKI = camp::idx_seq< 1, 2, 0 >;
using PERM_KIJ = camp::idx_seq< 2, 0, 1 >;
using PERM_KJI = camp::idx_seq< 2, 1, 0 >;
using PERM_IJKL = camp::idx_seq< 0, 1, 2, 3 >;
using PERM_IJLK = camp::idx_seq< 0, 1, 3, 2 >;
using PERM_IKJL = camp::idx_seq< 0, 2, 1, 3 >;
using PERM_IKLJ = camp::idx_seq< 0, 2, 3, 1 >;
using PERM_ILJK = camp::idx_seq< 0, 3, 1, 2 >;
using PERM_ILKJ = camp::idx_seq< 0, 3, 2, 1 >;
using PERM_JIKL = camp::idx_seq< 1, 0, 2, 3 >;
using PERM_JILK = camp::idx_seq< 1, 0, 3, 2 >;
using PERM_JKIL = camp::idx_seq< 1, 2, 0, 3 >;
using PERM_JKLI = camp::idx_seq< 1, 2, 3, 0 >;
using PERM_JLIK = camp::idx_seq< 1, 3, 0, 2 >;
using PERM_JLKI = camp::idx_seq< 1, 3, 2, 0 >;
using PERM_KIJL = camp::idx_seq< 2, 0, 1, 3 >;
using PERM_KILJ = camp::idx_seq< 2, 0, 3, 1 >;
using PERM_KJIL = camp::idx_seq< 2, 1, 0, 3 >;
using PERM_KJLI = camp::idx_seq< 2, 1, 3, 0 >;
using PERM_KLIJ = camp::idx_seq< 2, 3, 0, 1 >;
using PERM_KLJI = camp::idx_seq< 2, 3, 1, 0 >;
using PERM_LIJK = camp::idx_seq< 3, 0, 1, 2 >;
using PERM_LIKJ = camp::idx_seq< 3, 0, 2, 1 >;
using PERM_LJIK = camp::idx_seq< 3, 1, 0, 2 >;
using PERM_LJKI = camp::idx_seq< 3, 1, 2, 0 >;
using PERM_LKIJ = camp::idx_seq< 3, 2, 0, 1 >;
using PERM_LKJI = camp::idx_seq< 3, 2, 1, 0 >;

template< typename PERM > struct as_array;
template< camp::idx_t... I >
struct as_array< camp::idx_seq< I... > >
{ static constexpr std::array< Index_type, sizeof...( I ) > get() { return {{ I ... }}; } };

// ------------------------------------------------------------------ policies
struct seq_exec {};
struct loop_exec {};
struct simd_exec {};
struct omp_parallel_for_exec {};
struct omp_for_exec {};
template< typename > struct omp_parallel_exec {};
template< std::size_t THREADS, bool ASYNC=false > struct cuda_exec {};
template< std::size_t THREADS > using cuda_exec_async = cuda_exec< THREADS, true >;

struct seq_atomic {};
struct loop_atomic {};
struct omp_atomic {};
struct builtin_atomic {};
struct auto_atomic {};
struct cuda_atomic {};

struct seq_reduce {};
struct loop_reduce {};
struct omp_reduce {};
struct cuda_reduce {};

namespace detail
{
template< typename POLICY > struct traits { static constexpr int kind = 0; };                        // 0: in order
template<> struct traits< omp_parallel_for_exec > { static constexpr int kind = 1; };                // 1: host team
template<> struct traits< omp_for_exec > { static constexpr int kind = 1; };
template< typename I > struct traits< omp_parallel_exec< I > > { static constexpr int kind = 1; };
template< std::size_t N, bool A > struct traits< cuda_exec< N, A > > { static constexpr int kind = 2; }; // 2: device

/// Called around the capture of a loop body with the platform it will run on (the CHAI plugin of RAJA).
using CaptureHook = void ( * )( camp::resources::Platform );
inline CaptureHook & captureHook()
{ static CaptureHook hook = nullptr; return hook; }

inline void preCapture( camp::resources::Platform const p ) { if( captureHook() ) captureHook()( p ); }
inline void postCapture() { if( captureHook() ) captureHook()( camp::resources::Platform::undefined ); }

template< typename BODY >
BODY privatize( BODY const & b ) { return b; }
} // namespace detail

// ------------------------------------------------------------------ segments
template< typename T, typename DIFF = std::ptrdiff_t >
struct TypedRangeSegment
{
  using value_type = T;
  struct iterator
  {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = T const *;
    using reference = T;
    T v;
    T operator*() const { return v; }
    iterator & operator++() { ++v; return *this; }
    bool operator!=( iterator const & o ) const { return v != o.v; }
    bool operator==( iterator const & o ) const { return v == o.v; }
    difference_type operator-( iterator const & o ) const { return difference_type( v ) - difference_type( o.v ); }
    T operator[]( difference_type const i ) const { return T( v + T( i ) ); }
  };
  template< typename A, typename B >
  TypedRangeSegment( A const b, B const e ): m_begin( T( b ) ), m_end( T( e ) ) {}
  iterator begin() const { return iterator{ m_begin }; }
  iterator end() const { return iterator{ m_end < m_begin ? m_begin : m_end }; }
  DIFF size() const { return m_end < m_begin ? 0 : DIFF( m_end - m_begin ); }
  T m_begin, m_end;
};

using RangeSegment = TypedRangeSegment< Index_type >;

// ------------------------------------------------------------------ loops
namespace detail
{
template< typename SEG, typename BODY >
void run( std::integral_constant< int, 0 >, SEG const & seg, BODY const & body )
{
  auto const b = seg.begin();
  auto const n = seg.end() - b;
  for( decltype( seg.end() - b ) i = 0; i < n; ++i ) body( b[ i ] );
}

#if defined( LVSIM )

// A team of simulated threads, each with a private copy of the body and a contiguous chunk of the iterations, as
// OpenMP's static schedule does, or (seeded) with dynamic chunks.
template< typename SEG, typename BODY >
void run( std::integral_constant< int, 1 >, SEG const & seg, BODY const & body )
{
  auto const b = seg.begin();
  long const n = long( seg.end() - b );
  int const team = ::sim::hostThreads();
  bool const dynamic = ::sim::envDraw( 2 ) == 1;
  if( n > 1 ) ::sim::probe( "parallel-host-loop" );
  long next = 0;
  ::sim::parallel( team, [ & ]( int const t )
  {
    BODY const priv = privatize( body );
    if( dynamic )
    {
      while( true )
      {
        long i;
        { ::sim::NoTrack quiet; i = next++; }
        if( i >= n ) break;
        priv( b[ i ] );
      }
    }
    else
    {
      long const lo = n * t / team, hi = n * ( t + 1 ) / team;
      for( long i = lo; i < hi; ++i ) priv( b[ i ] );
    }
  } );
}

// Simulated device threads: every iteration may interleave with up to seven others, in an order the simulator picks.
template< typename SEG, typename BODY >
void run( std::integral_constant< int, 2 >, SEG const & seg, BODY const & body )
{
  auto const b = seg.begin();
  long const n = long( seg.end() - b );
  std::vector< long > order;
  {
    ::sim::NoTrack quiet;
    for( long i = 0; i < n; ++i ) order.push_back( i );
    for( long i = n - 1; i > 0; --i ) std::swap( order[ std::size_t( i ) ], order[ ::sim::envDraw( std::uint32_t( i + 1 ) ) ] );
  }
  if( n > 1 ) ::sim::probe( "device-kernel" );
  int const width = int( std::min< long >( n, 8 ) );
  long next = 0;
  ::sim::parallel( width, [ & ]( int )
  {
    BODY const priv = privatize( body );
    auto const first = b;     // what the closure refers to is memory of the host
    long const count = n;
    long * const nextOne = &next;
    long const * const turn = order.data();
    ::sim::DeviceScope device;
    while( true )
    {
      long i;
      { ::sim::NoTrack quiet; if( *nextOne >= count ) break; i = turn[ ( *nextOne )++ ]; }
      priv( first[ i ] );
    }
  } );
  ::sim::NoTrack quiet;
  order.clear();
  order.shrink_to_fit();
}

#else

template< int K, typename SEG, typename BODY >
void run( std::integral_constant< int, K >, SEG const & seg, BODY const & body )
{ run( std::integral_constant< int, 0 >{}, seg, body ); }

#endif
} // namespace detail

template< typename POLICY, typename SEG, typename BODY >
void forall( SEG const & seg, BODY && loopBody )
{
  using Kind = std::integral_constant< int, detail::traits< POLICY >::kind >;
  detail::preCapture( Kind::value == 2 ? camp::resources::Platform::cuda : camp::resources::Platform::host );
  std::decay_t< BODY > const body = detail::privatize< std::decay_t< BODY > >( loopBody );
  detail::postCapture();
  detail::run( Kind{}, seg, body );
}

// ------------------------------------------------------------------ scans
namespace operators
{
template< typename T > struct plus
{ T operator()( T const & a, T const & b ) const { return a + b; } static constexpr T identity() { return T( 0 ); } };
template< typename T > struct maximum
{ T operator()( T const & a, T const & b ) const { return a < b ? b : a; } static constexpr T identity() { return std::numeric_limits< T >::lowest(); } };
template< typename T > struct minimum
{ T operator()( T const & a, T const & b ) const { return b < a ? b : a; } static constexpr T identity() { return std::numeric_limits< T >::max(); } };
template< typename T > struct bit_and
{ T operator()( T const & a, T const & b ) const { return static_cast< T >( a & b ); } static constexpr T identity() { return static_cast< T >( ~T( 0 ) ); } };
template< typename T > struct bit_or
{ T operator()( T const & a, T const & b ) const { return static_cast< T >( a | b ); } static constexpr T identity() { return T( 0 ); } };
template< typename T > struct bit_xor
{ T operator()( T const & a, T const & b ) const { return static_cast< T >( a ^ b ); } static constexpr T identity() { return T( 0 ); } };
template< typename T > struct multiplies
{ T operator()( T const & a, T const & b ) const { return a * b; } static constexpr T identity() { return T( 1 ); } };
} // namespace operators

namespace detail
{
template< int KIND, typename IN, typename OUT, typename OP, typename T >
void scan( std::integral_constant< int, KIND >, IN const in, long const n, OUT const out, OP const op, bool const inclusive, T const init )
{
  int team = 1;
#if defined( LVSIM )
  if( KIND != 0 && n > 1 ) { team = ::sim::hostThreads(); ::sim::probe( "parallel-scan" ); }
#endif
  if( team == 1 )
  {
    T acc = init;
    for( long i = 0; i < n; ++i )
    {
      T const v = in[ i ];
      if( inclusive ) { acc = op( acc, v ); out[ i ] = acc; }
      else { out[ i ] = acc; acc = op( acc, v ); }
    }
    return;
  }
#if defined( LVSIM )
  T sums[ 16 ];
  ::sim::parallel( team, [ & ]( int const t )
  {
    T acc = OP::identity();
    for( long i = n * t / team; i < n * ( t + 1 ) / team; ++i )
    {
      T const v = in[ i ];
      if( inclusive ) { acc = op( acc, v ); out[ i ] = acc; }
      else { out[ i ] = acc; acc = op( acc, v ); }
    }
    sums[ t ] = acc;
  } );
  T base = init;
  T offs[ 16 ];
  for( int t = 0; t < team; ++t ) { offs[ t ] = base; base = op( base, sums[ t ] ); }
  ::sim::parallel( team, [ & ]( int const t )
  { for( long i = n * t / team; i < n * ( t + 1 ) / team; ++i ) out[ i ] = op( offs[ t ], out[ i ] ); } );
#endif
}

template< typename POLICY > using Kind = std::integral_constant< int, traits< POLICY >::kind >;
} // namespace detail

template< typename ITER >
struct Span
{
  ITER b; long n;
  ITER begin() const { return b; }
  ITER end() const { return b + n; }
  long size() const { return n; }
};
template< typename ITER, typename N >
Span< ITER > make_span( ITER b, N n ) { return Span< ITER >{ b, long( n ) }; }

template< typename POLICY, typename ITER, typename OUT >
std::enable_if_t< std::is_pointer< ITER >::value && std::is_pointer< OUT >::value >
inclusive_scan( ITER const b, ITER const e, OUT const out )
{ using T = std::decay_t< decltype( *out ) >; detail::scan( detail::Kind< POLICY >{}, b, long( e - b ), out, operators::plus< T >{}, true, T( 0 ) ); }

template< typename POLICY, typename ITER, typename OUT, typename OP >
void inclusive_scan( ITER const b, ITER const e, OUT const out, OP const op )
{ detail::scan( detail::Kind< POLICY >{}, b, long( e - b ), out, op, true, OP::identity() ); }

template< typename POLICY, typename IN, typename OUT >
std::enable_if_t< !std::is_pointer< IN >::value > inclusive_scan( IN const & in, OUT && out )
{ using T = std::decay_t< decltype( *out.begin() ) >; detail::scan( detail::Kind< POLICY >{}, in.begin(), long( in.size() ), out.begin(), operators::plus< T >{}, true, T( 0 ) ); }

template< typename POLICY, typename ITER >
void inclusive_scan_inplace( ITER const b, ITER const e )
{ using T = std::decay_t< decltype( *b ) >; detail::scan( detail::Kind< POLICY >{}, b, long( e - b ), b, operators::plus< T >{}, true, T( 0 ) ); }

template< typename POLICY, typename ITER, typename OUT >
std::enable_if_t< std::is_pointer< ITER >::value && std::is_pointer< OUT >::value >
exclusive_scan( ITER const b, ITER const e, OUT const out )
{ using T = std::decay_t< decltype( *out ) >; detail::scan( detail::Kind< POLICY >{}, b, long( e - b ), out, operators::plus< T >{}, false, T( 0 ) ); }

template< typename POLICY, typename ITER, typename OUT, typename OP >
void exclusive_scan( ITER const b, ITER const e, OUT const out, OP const op )
{ detail::scan( detail::Kind< POLICY >{}, b, long( e - b ), out, op, false, OP::identity() ); }

template< typename POLICY, typename ITER, typename OUT, typename OP, typename T >
void exclusive_scan( ITER const b, ITER const e, OUT const out, OP const op, T const init )
{ detail::scan( detail::Kind< POLICY >{}, b, long( e - b ), out, op, false, init ); }

template< typename POLICY, typename ITER >
void exclusive_scan_inplace( ITER const b, ITER const e )
{ using T = std::decay_t< decltype( *b ) >; detail::scan( detail::Kind< POLICY >{}, b, long( e - b ), b, operators::plus< T >{}, false, T( 0 ) ); }

template< typename POLICY, typename ITER, typename OP >
void inclusive_scan_inplace( ITER const b, ITER const e, OP const op )
{ detail::scan( detail::Kind< POLICY >{}, b, long( e - b ), b, op, true, OP::identity() ); }

template< typename POLICY, typename ITER, typename OP >
void exclusive_scan_inplace( ITER const b, ITER const e, OP const op )
{ detail::scan( detail::Kind< POLICY >{}, b, long( e - b ), b, op, false, OP::identity() ); }

template< typename POLICY, typename ITER, typename OP, typename T >
void exclusive_scan_inplace( ITER const b, ITER const e, OP const op, T const init )
{ detail::scan( detail::Kind< POLICY >{}, b, long( e - b ), b, op, false, init ); }

template< typename POLICY, typename IN, typename OUT, typename OP >
std::enable_if_t< !std::is_pointer< IN >::value && !std::is_pointer< std::decay_t< OUT > >::value > inclusive_scan( IN const & in, OUT && out, OP const op )
{ detail::scan( detail::Kind< POLICY >{}, in.begin(), long( in.size() ), out.begin(), op, true, OP::identity() ); }

template< typename POLICY, typename IN, typename OUT >
std::enable_if_t< !std::is_pointer< IN >::value > exclusive_scan( IN const & in, OUT && out )
{ using T = std::decay_t< decltype( *out.begin() ) >; detail::scan( detail::Kind< POLICY >{}, in.begin(), long( in.size() ), out.begin(), operators::plus< T >{}, false, T( 0 ) ); }

template< typename POLICY, typename IN >
std::enable_if_t< !std::is_pointer< std::decay_t< IN > >::value > inclusive_scan_inplace( IN && io )
{ using T = std::decay_t< decltype( *io.begin() ) >; detail::scan( detail::Kind< POLICY >{}, io.begin(), long( io.size() ), io.begin(), operators::plus< T >{}, true, T( 0 ) ); }

template< typename POLICY, typename IN >
std::enable_if_t< !std::is_pointer< std::decay_t< IN > >::value > exclusive_scan_inplace( IN && io )
{ using T = std::decay_t< decltype( *io.begin() ) >; detail::scan( detail::Kind< POLICY >{}, io.begin(), long( io.size() ), io.begin(), operators::plus< T >{}, false, T( 0 ) ); }

// ------------------------------------------------------------------ atomics
namespace detail
{
template< typename POLICY > struct isAtomic { static constexpr bool value = true; };
template<> struct isAtomic< seq_atomic > { static constexpr bool value = false; };
template<> struct isAtomic< loop_atomic > { static constexpr bool value = false; };

template< typename T, typename F >
LVSIM_NOINSTR inline T rmwQuiet( T volatile * const p, F const f )
{ T const old = *p; *p = f( old ); return old; }

template< bool ATOMIC, typename T, typename F >
inline T rmw( std::integral_constant< bool, ATOMIC >, T volatile * const p, F const f )
{
  T const old = *p;
  *p = f( old );
  return old;
}

#if defined( LVSIM )
template< typename T, typename F >
inline T rmw( std::integral_constant< bool, true >, T volatile * const p, F const f )
{
  ::sim::atomicPoint( p, sizeof( T ), true );
  ::sim::probe( "atomic-operation" );
  return rmwQuiet( p, f );
}
#endif
template< typename POLICY > using A = std::integral_constant< bool, isAtomic< POLICY >::value >;

#define LVSIM_OP( NAME, EXPR ) \
template< typename T > struct NAME { T v; LVSIM_NOINSTR T operator()( T const o ) const { return EXPR; } };
LVSIM_OP( OpAdd, T( o + v ) )
LVSIM_OP( OpSub, T( o - v ) )
LVSIM_OP( OpMin, ( v < o ? v : o ) )
LVSIM_OP( OpMax, ( o < v ? v : o ) )
LVSIM_OP( OpAnd, T( o & v ) )
LVSIM_OP( OpOr, T( o | v ) )
LVSIM_OP( OpXor, T( o ^ v ) )
LVSIM_OP( OpIncTo, ( o >= v ? T( 0 ) : T( o + 1 ) ) )
LVSIM_OP( OpDecFrom, ( o == T( 0 ) || o > v ? v : T( o - 1 ) ) )
LVSIM_OP( OpSet, v )
LVSIM_OP( OpNop, o )
#undef LVSIM_OP
template< typename T > struct OpCas { T c, v; LVSIM_NOINSTR T operator()( T const o ) const { return o == c ? v : o; } };
template< typename T > struct Id { using type = T; };
template< typename T > using Id_t = typename Id< T >::type;
} // namespace detail

template< typename POLICY, typename T > T atomicAdd( T volatile * p, detail::Id_t< T > v )
{ return detail::rmw( detail::A< POLICY >{}, p, detail::OpAdd< T >{ v } ); }
template< typename POLICY, typename T > T atomicSub( T volatile * p, detail::Id_t< T > v )
{ return detail::rmw( detail::A< POLICY >{}, p, detail::OpSub< T >{ v } ); }
template< typename POLICY, typename T > T atomicMin( T volatile * p, detail::Id_t< T > v )
{ return detail::rmw( detail::A< POLICY >{}, p, detail::OpMin< T >{ v } ); }
template< typename POLICY, typename T > T atomicMax( T volatile * p, detail::Id_t< T > v )
{ return detail::rmw( detail::A< POLICY >{}, p, detail::OpMax< T >{ v } ); }
template< typename POLICY, typename T > T atomicInc( T volatile * p )
{ return detail::rmw( detail::A< POLICY >{}, p, detail::OpAdd< T >{ T( 1 ) } ); }
template< typename POLICY, typename T > T atomicDec( T volatile * p )
{ return detail::rmw( detail::A< POLICY >{}, p, detail::OpSub< T >{ T( 1 ) } ); }
template< typename POLICY, typename T > T atomicInc( T volatile * p, detail::Id_t< T > v )
{ return detail::rmw( detail::A< POLICY >{}, p, detail::OpIncTo< T >{ v } ); }
template< typename POLICY, typename T > T atomicDec( T volatile * p, detail::Id_t< T > v )
{ return detail::rmw( detail::A< POLICY >{}, p, detail::OpDecFrom< T >{ v } ); }
template< typename POLICY, typename T > T atomicAnd( T volatile * p, detail::Id_t< T > v )
{ return detail::rmw( detail::A< POLICY >{}, p, detail::OpAnd< T >{ v } ); }
template< typename POLICY, typename T > T atomicOr( T volatile * p, detail::Id_t< T > v )
{ return detail::rmw( detail::A< POLICY >{}, p, detail::OpOr< T >{ v } ); }
template< typename POLICY, typename T > T atomicXor( T volatile * p, detail::Id_t< T > v )
{ return detail::rmw( detail::A< POLICY >{}, p, detail::OpXor< T >{ v } ); }
template< typename POLICY, typename T > T atomicExchange( T volatile * p, detail::Id_t< T > v )
{ return detail::rmw( detail::A< POLICY >{}, p, detail::OpSet< T >{ v } ); }
template< typename POLICY, typename T > T atomicCAS( T volatile * p, detail::Id_t< T > c, detail::Id_t< T > v )
{ return detail::rmw( detail::A< POLICY >{}, p, detail::OpCas< T >{ c, v } ); }
template< typename POLICY, typename T > T atomicLoad( T volatile * p )
{ return detail::rmw( detail::A< POLICY >{}, p, detail::OpNop< T >{ T( 0 ) } ); }
template< typename POLICY, typename T > void atomicStore( T volatile * p, detail::Id_t< T > v )
{ detail::rmw( detail::A< POLICY >{}, p, detail::OpSet< T >{ v } ); }

// ------------------------------------------------------------------ reductions
namespace detail
{
template< typename T, typename OP >
class Reducer
{
public:
  explicit Reducer( T const init = T( 0 ) ): m_value( std::make_shared< T >( init ) ) {}
  T get() const { return *m_value; }
  operator T() const { return get(); }
  void combine( T const v ) const
  {
#if defined( LVSIM )
    ::sim::NoTrack quiet;
#endif
    *m_value = OP{}( *m_value, v );
  }
protected:
  std::shared_ptr< T > m_value;
};
} // namespace detail

template< typename POLICY, typename T >
struct ReduceSum : detail::Reducer< T, operators::plus< T > >
{ using detail::Reducer< T, operators::plus< T > >::Reducer; ReduceSum const & operator+=( T const v ) const { this->combine( v ); return *this; } };
template< typename POLICY, typename T >
struct ReduceMax : detail::Reducer< T, operators::maximum< T > >
{ using detail::Reducer< T, operators::maximum< T > >::Reducer; ReduceMax const & max( T const v ) const { this->combine( v ); return *this; } };
template< typename POLICY, typename T >
struct ReduceMin : detail::Reducer< T, operators::minimum< T > >
{ using detail::Reducer< T, operators::minimum< T > >::Reducer; ReduceMin const & min( T const v ) const { this->combine( v ); return *this; } };
template< typename POLICY, typename T >
struct ReduceBitAnd : detail::Reducer< T, operators::bit_and< T > >
{ using detail::Reducer< T, operators::bit_and< T > >::Reducer; ReduceBitAnd const & operator&=( T const v ) const { this->combine( v ); return *this; } };
template< typename POLICY, typename T >
struct ReduceBitOr : detail::Reducer< T, operators::bit_or< T > >
{ using detail::Reducer< T, operators::bit_or< T > >::Reducer; ReduceBitOr const & operator|=( T const v ) const { this->combine( v ); return *this; } };

} // namespace RAJA
