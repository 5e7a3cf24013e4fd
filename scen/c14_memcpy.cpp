// C14: block copies between slices of arrays, at once or as work of a stream.
// A few arrays with related dimensions and layouts, on the host or the device, with and without Umpire. Copies between
// slices of them, synchronous, with a host resource or on streams whose work the simulator performs later, kernels and
// moves in between. Each array is compared with a model whenever no work on it is outstanding.
#include "common.hpp"
#include "memcpy.hpp"

#if defined( LVARRAY_USE_CHAI )
  #include "ChaiBuffer.hpp"
#endif

using namespace LvArray;
using namespace scn;

namespace
{

#if defined( LVARRAY_USE_CHAI )
template< typename T > using Shared = ChaiBuffer< T >;
#else
template< typename T > using Shared = MallocBuffer< T >;
#endif

#if defined( LVARRAY_USE_CUDA )
constexpr bool hasDevice = true;
using device_exec = RAJA::cuda_exec< 32 >;
#else
constexpr bool hasDevice = false;
#endif

bool g_stopped;

int pick( std::size_t const n ) { return int( sim::draw( std::uint32_t( n ) ) ); }

// ------------------------------------------------------------------ values in which every byte matters
template< typename T > struct Code : Elem< T > {};
template<> struct Code< int >
{ // the product with an odd number and with its inverse
  static int make( Id const i ) { return int( std::uint32_t( i ) * 0x9e3779b1u ); }
  static Id id( int const v ) { return Id( std::int32_t( std::uint32_t( v ) * 0x0e8b2f51u ) ); }
};
template<> struct Code< std::int64_t >
{
  static std::int64_t make( Id const i ) { return std::int64_t( std::uint64_t( i ) * 0x9e3779b97f4a7c15u ); }
  static Id id( std::int64_t const v ) { return Id( std::uint64_t( v ) * 0xf1de83e19937733du ); }
};
template<> struct Code< Triple >
{
  static Triple make( Id const i ) { return { Code< int >::make( i ), Code< int >::make( i + 1 ), Code< int >::make( i + 2 ) }; }
  static Id id( Triple const & v )
  {
    Id const i = Code< int >::id( v.a );
    return Code< int >::id( v.b ) == i + 1 && Code< int >::id( v.c ) == i + 2 ? i : -77777;
  }
};
struct Base
{
  int id = 0;
  int stream = -1;          // work of this stream on it may be outstanding
  bool umpire = false;
  virtual ~Base() {}
  virtual void verify() = 0;
  virtual void modify() = 0;
  virtual void relocate() = 0;
  virtual void fill() = 0;
  virtual bool onDevice() const = 0;
};

template< typename A > struct Parts;
template< typename T, int N, typename P, typename IT, template< typename > class BUF >
struct Parts< Array< T, N, P, IT, BUF > >
{
  using Value = T;
  using Index = IT;
  static constexpr int ndim = N;
  using Perm = P;
};

template< typename A, typename IT > void resizeAll( A & a, IT const ( &d )[ 1 ] ) { a.resize( d[ 0 ] ); }
template< typename A, typename IT > void resizeAll( A & a, IT const ( &d )[ 2 ] ) { a.resize( d[ 0 ], d[ 1 ] ); }
template< typename A, typename IT > void resizeAll( A & a, IT const ( &d )[ 3 ] ) { a.resize( d[ 0 ], d[ 1 ], d[ 2 ] ); }
template< typename A, typename IT > void resizeAll( A & a, IT const ( &d )[ 4 ] ) { a.resize( d[ 0 ], d[ 1 ], d[ 2 ], d[ 3 ] ); }

template< typename A >
struct Box : Base
{
  using T = typename Parts< A >::Value;
  using IT = typename Parts< A >::Index;
  static constexpr int N = Parts< A >::ndim;
  A a;
  I dims[ N ], strides[ N ];
  std::vector< Id > m;       // as it lies in memory

  Box( int const number, bool const byUmpire, I const ( &d )[ N ] )
  {
    id = number;
    umpire = byUmpire;
    IT s[ N ];
    for( int k = 0; k < N; ++k ) { dims[ k ] = d[ k ]; s[ k ] = IT( d[ k ] ); }
    resizeAll( a, s );
    // the strides from the order in which the dimensions lie in memory
    I length = 1;
    auto const perm = RAJA::as_array< typename Parts< A >::Perm >::get();
    for( int k = N - 1; k >= 0; --k ) { strides[ perm[ std::size_t( k ) ] ] = length; length *= dims[ perm[ std::size_t( k ) ] ]; }
    m.resize( std::size_t( length ) );
    for( I k = 0; k < length; ++k ) { m[ std::size_t( k ) ] = 1000 * ( id + 1 ) + k; a.data()[ k ] = Code< T >::make( m[ std::size_t( k ) ] ); }
  }

  bool onDevice() const override { return hasDevice && umpire && !m.empty() && a.getPreviousSpace() != MemorySpace::host; }

  void verify() override
  {
    if( stream >= 0 ) return;
    auto const v = a.toViewConst();
    v.move( MemorySpace::host, false );
    for( std::size_t k = 0; k < m.size(); ++k )
    {
      Id const x = Code< T >::id( v.data()[ k ] );
      SIM_CHECK( x == m[ k ], "wrong-value", "value %zu of array %d is %lld instead of %lld", k, id, (long long) x, (long long) m[ k ] );
    }
  }

  static SIM_NOINSTR bool flip() { return sim::chance( 1, 2 ); }

  void modify() override
  {
    Id const add = 1 + Id( sim::draw( 9 ) );
    auto const v = a.toView();
    I const n = I( m.size() );
#if defined( LVARRAY_USE_CUDA )
    if( umpire && flip() )
    {
      sim::log( "kernel on the device changes array %d by %lld", id, (long long) add );
      RAJA::forall< device_exec >( RAJA::TypedRangeSegment< I >( 0, n ), [v, add]( I const i ) { v.data()[ i ] = Code< T >::make( Code< T >::id( v.data()[ i ] ) + add ); } );
      for( Id & x : m ) x += add;
      return;
    }
#endif
    sim::log( "kernel on the host changes array %d by %lld", id, (long long) add );
    RAJA::forall< RAJA::loop_exec >( RAJA::TypedRangeSegment< I >( 0, n ), [v, add]( I const i ) { v.data()[ i ] = Code< T >::make( Code< T >::id( v.data()[ i ] ) + add ); } );
    for( Id & x : m ) x += add;
  }

  void fill() override
  {
    std::size_t const first = m.empty() ? 0 : std::size_t( pick( m.size() ) ), n = m.empty() ? 0 : 1 + std::size_t( pick( m.size() - first ) );
    int const byte = flip() ? 0 : 1 + int( sim::draw( 255 ) );
    sim::log( "bytes of %zu values of array %d from %zu become %d", n, id, first, byte );
    if( !std::is_integral< T >::value && ( byte != 0 || !std::is_floating_point< T >::value ) ) return;
    auto const v = a.toView();
    v.move( v.getPreviousSpace(), true );
    umpireInterface::memset( v.data() + first, byte, n * sizeof( T ) );
    T x;
    std::memset( &x, byte, sizeof( T ) );
    for( std::size_t k = first; k < first + n; ++k ) m[ k ] = Code< T >::id( x );
    sim::probe( "memset" );
  }

  void relocate() override
  {
#if defined( LVARRAY_USE_CUDA )
    if( !umpire ) return;
    bool const device = flip(), touch = flip();
    sim::log( "array %d moves to the %s%s", id, device ? "device" : "host", touch ? "" : " untouched" );
    a.move( device ? MemorySpace::cuda : MemorySpace::host, touch );
#endif
  }
};

// ------------------------------------------------------------------ all of a run
struct World
{
  std::vector< Base * > all;
  camp::resources::Resource host{ camp::resources::Host{} };
#if defined( LVARRAY_USE_CUDA )
  std::vector< camp::resources::Resource > streams{ camp::resources::Resource{ camp::resources::Cuda{} }, camp::resources::Resource{ camp::resources::Cuda{} } };
#endif
  struct Work { int stream; camp::resources::Event event; Base * dst; Base * src; };
  std::vector< Work > work;   // in the order it was given

  /// Everything of this stream up to and including work k is done.
  void done( std::size_t const k )
  {
    int const s = work[ k ].stream;
    std::vector< Work > left;
    for( std::size_t i = 0; i < work.size(); ++i )
    {
      if( work[ i ].stream == s && i <= k ) continue;
      left.push_back( work[ i ] );
    }
    work = left;
    for( Base * const b : all ) b->stream = -1;
    for( Work const & w : work ) { w.dst->stream = w.stream; w.src->stream = w.stream; }
  }
  void wait()
  {
    if( work.empty() ) return;
    std::size_t const k = std::size_t( pick( work.size() ) );
#if defined( LVARRAY_USE_CUDA )
    switch( sim::draw( 3 ) )
    {
      case 0: sim::log( "wait for an event of stream %d", work[ k ].stream ); work[ k ].event.wait(); break;
      case 1:
      {
        sim::log( "ask an event of stream %d", work[ k ].stream );
        if( !work[ k ].event.check() ) return;
        break;
      }
      default:
      {
        sim::log( "wait for stream %d", work[ k ].stream );
        streams[ std::size_t( work[ k ].stream ) ].wait();
        std::size_t last = k;
        for( std::size_t i = 0; i < work.size(); ++i ) if( work[ i ].stream == work[ k ].stream ) last = i;
        sim::probe( "waited" );
        done( last );
        return;
      }
    }
#endif
    sim::probe( "waited" );
    done( k );
  }
  void waitForAll() { while( !work.empty() ) { auto const k = work.size() - 1; work[ k ].event.wait(); done( k ); } }
};

enum How { NOW, HOST, STREAM, SLICES, SLICES_HOST, SLICES_STREAM };

/// Copy a slice of s (after NS indices) to a slice of d (after ND indices).
template< std::size_t ND, std::size_t NS, typename DA, typename SA >
void copy( World & w, Box< DA > & d, Box< SA > & s )
{
  using DI = typename Box< DA >::IT;
  using SI = typename Box< SA >::IT;
  constexpr int DIMS = Box< DA >::N - int( ND );
  static_assert( DIMS == Box< SA >::N - int( NS ), "" );

  std::array< DI, ND > di;
  std::array< SI, NS > si;
  I dOff = 0, sOff = 0;
  for( std::size_t k = 0; k < ND; ++k ) { if( d.dims[ k ] == 0 ) return; di[ k ] = DI( pick( std::size_t( d.dims[ k ] ) ) ); dOff += I( di[ k ] ) * d.strides[ k ]; }
  for( std::size_t k = 0; k < NS; ++k ) { if( s.dims[ k ] == 0 ) return; si[ k ] = SI( pick( std::size_t( s.dims[ k ] ) ) ); sOff += I( si[ k ] ) * s.strides[ k ]; }

  I n = 1, ns = 1;
  bool sameDims = true, sameStrides = true;
  for( int k = 0; k < DIMS; ++k )
  {
    n *= d.dims[ k + int( ND ) ];
    ns *= s.dims[ k + int( NS ) ];
    sameDims = sameDims && d.dims[ k + int( ND ) ] == s.dims[ k + int( NS ) ];
    sameStrides = sameStrides && d.strides[ k + int( ND ) ] == s.strides[ k + int( NS ) ];
  }
  if( n == ns && sameStrides && !sameDims ) return;   // dimensions of length one or zero may be in any place
  // the last value of the slice is the n-th from its start if there are no gaps
  I far = 0;
  for( int k = 0; k < DIMS; ++k ) far += ( d.dims[ k + int( ND ) ] - 1 ) * d.strides[ k + int( ND ) ];
  bool const gaps = n > 0 && far != n - 1;
  bool const valid = sameDims && sameStrides && !gaps;

  if( static_cast< Base * >( &d ) == static_cast< Base * >( &s ) && ( dOff < sOff + n && sOff < dOff + n ) ) return; // onto itself
  // without Umpire everything has to be on the host
  if( ( d.onDevice() || s.onDevice() ) && !( d.umpire && s.umpire ) ) return;

  How how = How( sim::draw( 6 ) );
  int stream = -1;
#if defined( LVARRAY_USE_CUDA )
  stream = d.stream >= 0 ? d.stream : s.stream >= 0 ? s.stream : pick( 2 );
  if( d.stream >= 0 || s.stream >= 0 )
  { // only the same stream may work on them
    if( ( d.stream >= 0 && d.stream != stream ) || ( s.stream >= 0 && s.stream != stream ) ) return;
    how = sim::chance( 1, 2 ) ? STREAM : SLICES_STREAM;
    sim::probe( "several-on-one-stream" );
  }
#else
  if( how == STREAM ) how = HOST;
  if( how == SLICES_STREAM ) how = SLICES_HOST;
#endif
  sim::log( "copy %lld values of array %d at %lld to array %d at %lld (%s)%s", (long long) n, s.id, (long long) sOff, d.id, (long long) dOff,
            how == NOW ? "now" : how == HOST ? "host resource" : how == STREAM ? "stream" : how == SLICES ? "slices" : how == SLICES_HOST ? "slices, host resource" : "slices, stream", valid ? "" : ", impossible" );

  auto const dv = d.a.toView();
  auto const sv = s.a.toViewConst();
  camp::resources::Event event;
  camp::resources::Resource resource = w.host;
#if defined( LVARRAY_USE_CUDA )
  if( how == STREAM || how == SLICES_STREAM ) resource = w.streams[ std::size_t( stream ) ];
#endif
  auto const f = [&]
  {
    if( how == NOW ) LvArray::memcpy< ND, NS >( dv, di, sv, si );
    else if( how == HOST || how == STREAM ) event = LvArray::memcpy< ND, NS >( resource, dv, di, sv, si );
    else
    {
      dv.move( dv.getPreviousSpace(), true );
      sv.move( sv.getPreviousSpace(), false );
      auto const ds = LvArray::internal::slice< int( ND ) >( dv.toSlice(), di.data() );
      auto const ss = LvArray::internal::slice< int( NS ) >( sv.toSlice(), si.data() );
      if( how == SLICES ) LvArray::memcpy( ds, ss );
      else event = LvArray::memcpy( resource, ds, ss );
    }
  };
  if( !valid )
  {
    bool const stopped = sim::stops( f );
    SIM_CHECK( stopped, "not-refused", "a copy between slices that do not match was carried out" );
    g_stopped = true;
    sim::probe( "refused" );
    return;
  }
  f();
  std::vector< Id > const values( s.m.begin() + sOff, s.m.begin() + sOff + n );
  std::copy( values.begin(), values.end(), d.m.begin() + dOff );
  if( n > 1 ) sim::probe( "nontrivial" );
  if( ND + NS > 0 ) sim::probe( "part" );
  if( how == STREAM || how == SLICES_STREAM )
  {
    d.stream = s.stream = stream;
    w.work.push_back( World::Work{ stream, event, &d, &s } );
    sim::probe( "asynchronous" );
  }
  else { if( how == HOST || how == SLICES_HOST ) w.host.wait_for( &event ); event.wait(); }
}

template< typename T, typename IT, typename JT >
void run()
{
  LeakCheck leaks;
  g_stopped = false;
  {
    I const x = sim::chance( 1, 4 ) ? sim::range( 5, 9 ) : sim::range( 0, 4 ), y = sim::range( 1, 4 ), z = sim::range( 1, 3 );
    auto const near = []( I const v ) { return sim::chance( 1, 16 ) ? std::max< I >( 0, v + sim::range( -1, 1 ) ) : v; };
    World w;
    Box< Array< T, 1, RAJA::PERM_I, IT, Shared > > v( 0, true, { near( x ) } );
    Box< Array< T, 1, RAJA::PERM_I, JT, MallocBuffer > > h( 1, false, { near( x ) } );
    Box< Array< T, 2, RAJA::PERM_IJ, IT, Shared > > p( 2, true, { near( y ), near( x ) } );
    Box< Array< T, 2, RAJA::PERM_IJ, JT, Shared > > q( 3, true, { near( y ), near( x ) } );
    Box< Array< T, 3, RAJA::PERM_IJK, IT, Shared > > c( 4, true, { near( z ), near( y ), near( x ) } );
    Box< Array< T, 2, RAJA::PERM_JI, JT, Shared > > t( 5, true, { near( x ), near( y ) } );
    Box< Array< T, 3, RAJA::PERM_IKJ, IT, Shared > > u( 6, true, { near( z ), near( x ), near( y ) } );
    Box< Array< T, 3, RAJA::PERM_JIK, IT, Shared > > g( 7, true, { near( z ), near( y ), near( x ) } );
    Box< Array< T, 2, RAJA::PERM_IJ, IT, MallocBuffer > > k( 8, false, { near( y ), near( x ) } );
    Box< Array< T, 4, RAJA::PERM_IJKL, JT, Shared > > b( 9, true, { near( 2 ), near( z ), near( y ), near( x ) } );
    w.all = { &v, &h, &p, &q, &c, &t, &u, &g, &k, &b };
    for( int n = 0; n < 40 && sim::more( 18 ); ++n )
    {
      sim::Span span;
      std::uint32_t const op = sim::draw( 31 );
      if( op == 26 )
      { // all bytes
        Base & o = *w.all[ std::size_t( pick( w.all.size() ) ) ];
        if( o.stream < 0 ) o.fill();
      }
      else if( op >= 20 && op < 23 )
      {
        Base & o = *w.all[ std::size_t( pick( w.all.size() ) ) ];
        if( o.stream >= 0 ) w.wait();
        else if( op == 20 ) o.modify();
        else o.relocate();
      }
      else if( op >= 23 && op < 26 ) w.wait();
      else switch( op )
      {
        case 0: copy< 0, 0 >( w, v, h ); break;
        case 1: copy< 0, 0 >( w, h, v ); break;
        case 2: copy< 1, 0 >( w, p, v ); break;
        case 3: copy< 0, 1 >( w, v, p ); break;
        case 4: copy< 1, 1 >( w, p, q ); break;
        case 5: copy< 1, 1 >( w, q, q ); break;
        case 6: copy< 0, 0 >( w, q, p ); break;
        case 7: copy< 0, 0 >( w, p, q ); break;
        case 8: copy< 1, 0 >( w, c, q ); break;
        case 9: copy< 0, 1 >( w, q, c ); break;
        case 10: copy< 2, 0 >( w, c, v ); break;
        case 11: copy< 1, 2 >( w, q, c ); break;
        case 12: copy< 1, 1 >( w, c, c ); break;
        case 13: copy< 1, 0 >( w, u, t ); break;
        case 14: copy< 0, 1 >( w, t, u ); break;
        case 15: copy< 1, 0 >( w, g, p ); break;       // the first index is not the slowest: parts have gaps
        case 16: copy< 1, 1 >( w, k, p ); break;
        case 17: copy< 0, 0 >( w, p, k ); break;
        case 18: copy< 2, 1 >( w, g, q ); break;
        case 27: copy< 3, 0 >( w, b, v ); break;
        case 28: copy< 1, 3 >( w, p, b ); break;
        case 29: copy< 1, 0 >( w, b, c ); break;
        case 30: copy< 1, 2 >( w, c, b ); break;
        default: copy< 1, 1 >( w, k, k ); break;
      }
      if( sim::chance( 1, 3 ) ) camp::resources::simulateProgress();
    }
    // a refused copy has not written anything; work that was given to a stream before is still performed
    w.waitForAll();
    for( Base * const b : w.all ) b->verify();
  }
  if( !g_stopped ) leaks.check( "everything was destroyed" );
#if defined( LVARRAY_USE_UMPIRE )
  if( !g_stopped ) SIM_CHECK( umpire::ResourceManager::getInstance().live() == 0, "leak", "%zu allocations remain after everything was destroyed", umpire::ResourceManager::getInstance().live() );
#endif
}

} // namespace

void scenarioWarmup()
{
#if defined( LVARRAY_USE_CHAI )
  LvArray::internal::getArrayManager();
#endif
#if defined( LVARRAY_USE_UMPIRE )
  umpire::ResourceManager::getInstance();
#endif
}

void scenario()
{
  switch( sim::draw( 4 ) )
  {
    case 0: run< int, I, int >(); break;
    case 3: run< Triple, int, int >(); break;
    case 1: run< double, int, I >(); break;
    default: run< std::int64_t, I, I >(); break;
  }
}
