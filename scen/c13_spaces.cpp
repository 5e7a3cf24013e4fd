// C13: values stay coherent across memory spaces.
// A few containers of one kind whose buffers exist on the host and on the (simulated) device. Kernels in both spaces
// read and write through captured views, the containers are moved, touched, modified, copied, exchanged and destroyed.
// Every value any of them sees is compared with a model, transfers that are not needed are counted, and nothing may
// remain in any space at the end.
#include "common.hpp"
#include "ChaiBuffer.hpp"

using namespace LvArray;
using namespace scn;

void otherUnit(); // c13_unit.cpp

namespace
{

template< typename T > using Buf = ChaiBuffer< T >;

#if defined( LVARRAY_USE_CUDA )
constexpr bool hasDevice = true;
using device_exec = RAJA::cuda_exec< 32 >;
#else
constexpr bool hasDevice = false;
#endif

enum { HOST = 0, DEVICE = 1 };

SIM_NOINSTR bool flip() { return sim::chance( 1, 2 ); }
SIM_NOINSTR std::size_t pick( std::size_t const n ) { return n == 0 ? 0 : sim::draw( std::uint32_t( n ) ); }
SIM_NOINSTR int pickSpace() { return hasDevice ? int( sim::draw( 2 ) ) : HOST; }
char const * nameOf( int const s ) { return s == HOST ? "host" : "device"; }
MemorySpace toSpace( int const s )
{
#if defined( LVARRAY_USE_CUDA )
  if( s == DEVICE ) return MemorySpace::cuda;
#endif
  (void) s;
  return MemorySpace::host;
}

// The expected values are not in any of the spaces: reading them is no access of the kernel.
SIM_NOINSTR Id at( std::vector< Id > const & v, std::size_t const i ) { sim::NoTrack q; return i < v.size() ? v[ i ] : -999; }
SIM_NOINSTR std::size_t sizeOf( std::vector< Id > const & v ) { sim::NoTrack q; return v.size(); }
SIM_NOINSTR std::vector< Id > const & row( std::vector< std::vector< Id > > const & v, std::size_t const i ) { sim::NoTrack q; return v[ i ]; }
SIM_NOINSTR std::size_t rows( std::vector< std::vector< Id > > const & v ) { sim::NoTrack q; return v.size(); }

void expect( Id const got, Id const want, char const * const what, I const i, I const j = -1 )
{
  if( got != want ) sim::fail( "wrong-value", "%s sees %lld instead of %lld at %lld,%lld", what, (long long) got, (long long) want, (long long) i, (long long) j );
}

template< typename F >
void kernel( int const space, I const n, F const & f )
{
#if defined( LVARRAY_USE_CUDA )
  if( space == DEVICE ) { RAJA::forall< device_exec >( RAJA::TypedRangeSegment< I >( 0, n ), f ); return; }
#endif
  (void) space;
  switch( sim::draw( 3 ) )
  {
    case 0: RAJA::forall< RAJA::omp_parallel_for_exec >( RAJA::TypedRangeSegment< I >( 0, n ), f ); break;
    default: RAJA::forall< RAJA::loop_exec >( RAJA::TypedRangeSegment< I >( 0, n ), f ); break;
  }
}

char const * readerOf( int const space ) { return space == HOST ? "a kernel on the host" : "a kernel on the device"; }

// ------------------------------------------------------------------ what holds for all containers
struct State
{
  bool own = true;             // the container itself points to memory of the host
  bool modifiable = true;      // the host was touched since a device may have used it
  bool valid[ 2 ] = { true, false };
};

struct Box
{
  int id = 0;
  State s;
  bool everything = true;      // the last view may change the sizes too
  virtual ~Box() {}
  virtual void read( int space, bool kept ) = 0;             // a kernel reads all values through a constant view
  virtual void write( int space, bool kept ) = 0;            // a kernel changes values
  virtual void look() = 0;                                   // host code reads the container
  virtual void modify() = 0;                                 // host code changes the container
  virtual void moveTo( MemorySpace, bool touch, int by ) = 0; // by the container or a view kept from before
  virtual bool special() { return false; }
  virtual void recreate() = 0;
  virtual void exchange( Box & other, int how ) = 0;
  virtual std::size_t values() const = 0;
  /// Views of it cannot change what is touched on the device.
  virtual bool neverTouched() const { return false; }
  /// Transfers of the objects themselves, which carry no values.
  virtual std::size_t ownTransfers() const { return 0; }
  /// The host copy of nested containers refers to where the inner ones are.
  virtual bool nested() const { return false; }

  /// A view was captured (or moved) in this space.
  void captured( int const space, bool const mutating )
  {
    s.valid[ space ] = true;
    if( mutating ) s.valid[ 1 - space ] = false;
    if( space == DEVICE ) s.modifiable = false;
    else if( mutating && s.own && !nested() && everything ) s.modifiable = true; // all of it was touched on the host
    everything = true;
  }
  bool readable() const { return s.own && s.valid[ HOST ] && ( !nested() || s.modifiable ); }

  void explicitMove( int const space, bool const touch, int const by = 0 )
  {
    std::size_t const before = chai::ArrayManager::getInstance()->transfers();
    bool const was = s.valid[ space ];
    sim::log( "box %d moves to the %s%s%s", id, nameOf( space ), touch ? "" : " untouched", by ? " by a view" : "" );
    moveTo( toSpace( space ), touch, by );
    unneeded( was, before );
    if( !by ) s.own = space == HOST;
    s.valid[ space ] = true;
    if( touch && !( space == DEVICE && neverTouched() ) ) s.valid[ 1 - space ] = false;
    if( space == DEVICE ) s.modifiable = false;
    else if( touch && !by ) s.modifiable = true;
    if( space == DEVICE ) sim::probe( "moved-to-device" );
  }
  /// Nothing has to be transferred to a space that has the latest values.
  void unneeded( bool const wasValid, std::size_t const before ) const
  {
    std::size_t const n = chai::ArrayManager::getInstance()->transfers() - before;
    SIM_CHECK( !wasValid || n <= ownTransfers(), "needless-transfer", "%zu transfers although the space had the latest values", n );
  }
  void forModification()
  { if( !( s.modifiable && s.own ) || sim::chance( 1, 4 ) ) explicitMove( HOST, true ); s.valid[ DEVICE ] = false; s.valid[ HOST ] = true; }
  void forReading()
  { if( !readable() || sim::chance( 1, 4 ) ) explicitMove( HOST, flip() ); }

  void kernelRead( int const space )
  {
    bool const kept = flip();
    std::size_t const before = chai::ArrayManager::getInstance()->transfers();
    bool const was = s.valid[ space ];
    sim::log( "kernel on the %s reads box %d%s", nameOf( space ), id, kept ? " by a view kept from before" : "" );
    read( space, kept );
    unneeded( was, before );
    captured( space, false );
    if( space == DEVICE ) sim::probe( "device-read" );
  }
  void kernelWrite( int const space )
  {
    bool const kept = flip();
    std::size_t const before = chai::ArrayManager::getInstance()->transfers();
    bool const was = s.valid[ space ];
    sim::log( "kernel on the %s changes box %d%s", nameOf( space ), id, kept ? " by a view kept from before" : "" );
    write( space, kept );
    unneeded( was, before );
    captured( space, !neverTouched() );
    if( space == DEVICE ) sim::probe( "device-write" );
  }
};

/// The container, a model M and views that are kept until the container changes.
template< typename C, typename VIEW, typename VIEWCONST >
struct Views
{
  std::unique_ptr< VIEW > v;
  std::unique_ptr< VIEWCONST > c;
  void reset() { v.reset(); c.reset(); }
};

template< typename C, typename M, typename DERIVED >
struct Common : Box
{
  C a;
  M m;

  DERIVED & self() { return static_cast< DERIVED & >( *this ); }

  void recreate() override
  {
    sim::log( "box %d is made anew", id );
    self().reset();
    if( flip() )
    {
      a.~C();
      new ( &a ) C();
    }
    else a = C();
    m = M();
    s = State();
    self().made();
  }
  void made() {}

  void exchange( Box & o, int const how ) override
  {
    Common & other = static_cast< DERIVED & >( o );
    if( &other == this ) return;
    self().reset();
    other.self().reset();
    switch( how )
    {
      case 0:
        sim::log( "box %d = box %d", id, other.id );
        other.forReading();
        forModification();
        a = other.a;
        m = other.m;
        break;
      case 1:
      {
        sim::log( "box %d = copy of box %d", id, other.id );
        other.forReading();
        C copy( other.a );
        a = std::move( copy );
        m = other.m;
        s = State();
        break;
      }
      case 2:
        sim::log( "box %d = move( box %d )", id, other.id );
        a = std::move( other.a );
        m = std::move( other.m );
        s = other.s;
        other.a = C();
        other.m = M();
        other.s = State();
        other.self().made();
        break;
      default:
        sim::log( "swap( box %d, box %d )", id, other.id );
        std::swap( a, other.a );
        std::swap( m, other.m );
        std::swap( s, other.s );
        break;
    }
    self().made();
    sim::probe( "exchanged" );
  }
};

// ------------------------------------------------------------------ arrays
template< typename T, int NDIM, typename PERM >
struct ArrayBox : Common< Array< T, NDIM, PERM, I, Buf >, std::vector< Id >, ArrayBox< T, NDIM, PERM > >
{
  using C = Array< T, NDIM, PERM, I, Buf >;
  using Self = Common< C, std::vector< Id >, ArrayBox< T, NDIM, PERM > >;
  using Self::a; using Self::m; using Self::s; using Self::id;
  using View = std::decay_t< decltype( std::declval< C & >().toView() ) >;
  using ViewConst = std::decay_t< decltype( std::declval< C & >().toViewConst() ) >;
  Views< C, View, ViewConst > kept;
  bool pools = false;

  ArrayBox() { this->usePools(); }
  void reset() { kept.reset(); }
  /// Some arrays have allocators of their own.
  void usePools()
  {
    if( !flip() ) return;
    umpire::ResourceManager & rm = umpire::ResourceManager::getInstance();
#if defined( LVARRAY_USE_CUDA )
    a = C( Buf< T >( { MemorySpace::host, MemorySpace::cuda }, { rm.getAllocator( "HOST_pool" ), rm.getAllocator( "DEVICE_pool" ) } ) );
#else
    a = C( Buf< T >( { MemorySpace::host }, { rm.getAllocator( "HOST_pool" ) } ) );
#endif
    pools = true;
    sim::probe( "own-allocators" );
  }
  void recreate() override { Self::recreate(); pools = false; usePools(); }
  void exchange( Box & o, int const how ) override
  {
    ArrayBox & other = static_cast< ArrayBox & >( o );
    Self::exchange( o, how );
    if( &other == this ) return;
    if( how == 1 ) pools = false;
    if( how == 2 ) { pools = other.pools; other.pools = false; }
    if( how == 3 ) std::swap( pools, other.pools );
  }
  void checkAllocator( T const * const p, int const space )
  {
    if( m.empty() ) return;
    std::string const name = umpire::ResourceManager::getInstance().getAllocator( const_cast< std::remove_const_t< T > * >( p ) ).getName();
    std::string const want = pools ? ( space == HOST ? "HOST_pool" : "DEVICE_pool" ) : ( space == HOST ? "HOST" : "DEVICE" );
    SIM_CHECK( name == want, "wrong-allocator", "the values on the %s come from the allocator %s instead of %s", nameOf( space ), name.c_str(), want.c_str() );
  }

  std::size_t values() const override { return m.size(); }
  void read( int const space, bool const k ) override
  {
    if( !kept.c || !k ) kept.c.reset( new ViewConst( a.toViewConst() ) );
    ViewConst const v = *kept.c;
    std::vector< Id > const * const want = &m;
    char const * const who = readerOf( space );
    kernel( space, I( m.size() ), [v, want, who]( I const i ) { expect( Elem< T >::id( v.data()[ i ] ), at( *want, std::size_t( i ) ), who, i ); } );
  }
  void write( int const space, bool const k ) override
  {
    if( !kept.v || !k ) kept.v.reset( new View( a.toView() ) );
    View const v = *kept.v;
    Id const add = 1 + Id( sim::draw( 9 ) );
    kernel( space, I( m.size() ), [v, add]( I const i ) { v.data()[ i ] += Elem< T >::make( add ); } );
    for( Id & x : m ) x += add;
  }
  void look() override
  {
    sim::log( "host code reads box %d", id );
    SIM_CHECK( a.size() == I( m.size() ), "wrong-size", "the size is %lld instead of %zu", (long long) a.size(), m.size() );
    for( std::size_t i = 0; i < m.size(); ++i ) expect( Elem< T >::id( a.data()[ i ] ), m[ i ], "host code", I( i ) );
    checkAllocator( a.data(), HOST );
  }
  void resizeTo( I const n, std::integral_constant< int, 1 > ) { a.resize( n ); m.resize( std::size_t( n ), 0 ); }
  void resizeTo( I const n, std::integral_constant< int, 2 > )
  { // keeps what fits of the buffer only
    I const y = sim::range( 1, 3 );
    a.resize( n, y );
    m.resize( std::size_t( n * y ), 0 );
  }
  void resizeRaw( MemorySpace const space, I const n, std::integral_constant< int, 1 > ) { a.resizeWithoutInitializationOrDestruction( space, n ); m.assign( std::size_t( n ), 0 ); }
  void resizeRaw( MemorySpace const space, I const n, std::integral_constant< int, 2 > ) { a.resizeWithoutInitializationOrDestruction( space, n, 2 ); m.assign( std::size_t( 2 * n ), 0 ); }
  void set( std::size_t const i ) { m[ i ] = 100 + Id( sim::draw( 1000 ) ); a.data()[ i ] = Elem< T >::make( m[ i ] ); }
  template< typename X = C > void only1( X & x, std::integral_constant< int, 1 > )
  {
    Id const v = 100 + Id( sim::draw( 1000 ) );
    switch( sim::draw( 4 ) )
    {
      case 0: x.emplace_back( Elem< T >::make( v ) ); m.push_back( v ); break;
      case 1: { I const p = I( pick( m.size() + 1 ) ); x.emplace( p, Elem< T >::make( v ) ); m.insert( m.begin() + p, v ); break; }
      case 2: if( !m.empty() ) { I const p = I( pick( m.size() ) ); x.erase( p ); m.erase( m.begin() + p ); } break;
      default: if( !m.empty() ) { x.pop_back(); m.pop_back(); }
    }
  }
  template< typename X = C > void only1( X &, std::integral_constant< int, 2 > ) {}
  void modify() override
  {
    using D = std::integral_constant< int, NDIM >;
    reset();
    switch( sim::draw( 6 ) )
    {
      case 0: { I const n = sim::range( 0, 6 ); sim::log( "box %d is resized", id ); resizeTo( n, D{} ); break; }
      case 1: sim::log( "box %d changes its size by one", id ); for( std::uint32_t n = sim::draw( 3 ); n-- > 0; ) only1( a, D{} ); break;
      case 2: sim::log( "box %d reserves", id ); a.reserve( I( m.size() + sim::draw( 6 ) ) ); break;
      case 3: if( sim::chance( 1, 3 ) ) { sim::log( "box %d is cleared", id ); a.clear(); m.clear(); break; } // fall through
      default: sim::log( "box %d is assigned to", id ); for( std::size_t i = 0; i < m.size(); ++i ) if( flip() ) set( i );
    }
  }
  void moveTo( MemorySpace const space, bool const touch, int const by ) override
  {
    if( by ) { if( !kept.v ) kept.v.reset( new View( a.toView() ) ); kept.v->move( space, touch ); return; }
    a.move( space, touch );
    checkAllocator( a.data(), space == MemorySpace::host ? HOST : DEVICE );
  }
  bool special() override
  {
    switch( sim::draw( 6 ) )
    {
      case 5: // resizing touches by itself what was moved to the host for reading
      {
        this->forReading();
        reset();
        I const n = sim::range( 1, 6 );
        sim::log( "box %d is resized after it was moved for reading", id );
        resizeTo( n, std::integral_constant< int, NDIM >{} );
        s.modifiable = true;
        s.valid[ HOST ] = true;
        s.valid[ DEVICE ] = false;
        sim::probe( "resized-after-reading" );
        break;
      }
      case 0: // kernels that are given the address
      {
        int const space = pickSpace();
        this->explicitMove( space, true );
        sim::log( "kernel on the %s changes box %d by its address", nameOf( space ), id );
        T * const p = a.data();
        Id const add = 1 + Id( sim::draw( 9 ) );
        kernel( space, I( m.size() ), [p, add]( I const i ) { p[ i ] += Elem< T >::make( add ); } );
        for( Id & x : m ) x += add;
        sim::probe( "by-address" );
        break;
      }
      case 1: // touching afterwards
      {
        int const space = pickSpace();
        this->explicitMove( space, false );
        sim::log( "kernel on the %s changes box %d by its address and touches it", nameOf( space ), id );
        if( m.empty() ) break;
        T * const p = a.data();
        kernel( space, I( m.size() ), [p]( I const i ) { p[ i ] += Elem< T >::make( 1 ); } );
        for( Id & x : m ) x += 1;
        a.registerTouch( toSpace( space ) );
        s.valid[ 1 - space ] = false;
        sim::probe( "touched-afterwards" );
        break;
      }
      case 2:
      {
        sim::log( "box %d becomes zero where it was used last", id );
        if( m.empty() ) break;
        a.zero();
        m.assign( m.size(), 0 );
        int const space = a.getPreviousSpace() == MemorySpace::host ? HOST : DEVICE;
        s.own = space == HOST;
        s.valid[ space ] = true;
        s.valid[ 1 - space ] = false;
        sim::probe( "zeroed" );
        break;
      }
      case 3:
      {
        int const space = pickSpace();
        Id const x = Id( sim::draw( 9 ) );
        sim::log( "box %d becomes %lld on the %s", id, (long long) x, nameOf( space ) );
#if defined( LVARRAY_USE_CUDA )
        if( space == DEVICE ) a.template setValues< device_exec >( Elem< T >::make( x ) );
        else
#endif
        a.template setValues< RAJA::loop_exec >( Elem< T >::make( x ) );
        m.assign( m.size(), x );
        this->captured( space, true );
        sim::probe( "set-values" );
        break;
      }
      default:
      { // memory that is not initialised, for the next kernel
        int const space = pickSpace();
        this->forModification();
        a.clear();
        reset();
        I const n = sim::range( 0, 6 );
        sim::log( "box %d gets room for %lld on the %s", id, (long long) n, nameOf( space ) );
        resizeRaw( toSpace( space ), n, std::integral_constant< int, NDIM >{} );
        View const p = a.toView();
        Id const x = Id( sim::draw( 9 ) );
        kernel( space, I( m.size() ), [p, x]( I const i ) { new ( p.data() + i ) T( Elem< T >::make( x + i ) ); } );
        for( std::size_t i = 0; i < m.size(); ++i ) m[ i ] = x + Id( i );
        s.own = s.own && space == HOST;
        s.modifiable = space == HOST;
        s.valid[ space ] = true;
        s.valid[ 1 - space ] = false;
        sim::probe( "made-in-space" );
        break;
      }
    }
    return true;
  }
};

// ------------------------------------------------------------------ arrays of arrays (of arrays)
using Rows = std::vector< std::vector< Id > >;

template< typename T >
struct NestedBox : Common< Array< Array< T, 1, RAJA::PERM_I, I, Buf >, 1, RAJA::PERM_I, I, Buf >, Rows, NestedBox< T > >
{
  using Inner = Array< T, 1, RAJA::PERM_I, I, Buf >;
  using C = Array< Inner, 1, RAJA::PERM_I, I, Buf >;
  using Self = Common< C, Rows, NestedBox< T > >;
  using Self::a; using Self::m; using Self::s; using Self::id;
  using View = std::decay_t< decltype( std::declval< C & >().toNestedView() ) >;
  using ViewConst = std::decay_t< decltype( std::declval< C & >().toNestedViewConst() ) >;
  Views< C, View, ViewConst > kept;

  void reset() { kept.reset(); }
  bool nested() const override { return true; }
  std::size_t values() const override { std::size_t n = 0; for( auto const & r : m ) n += r.size(); return n; }
  void read( int const space, bool const k ) override
  {
    if( !kept.c || !k ) kept.c.reset( new ViewConst( a.toNestedViewConst() ) );
    ViewConst const v = *kept.c;
    Rows const * const want = &m;
    char const * const who = readerOf( space );
    kernel( space, I( m.size() ), [v, want, who]( I const i )
    {
      expect( v[ i ].size(), Id( sizeOf( row( *want, std::size_t( i ) ) ) ), who, i );
      for( I j = 0; j < v[ i ].size(); ++j ) expect( Elem< T >::id( v[ i ][ j ] ), at( row( *want, std::size_t( i ) ), std::size_t( j ) ), who, i, j );
    } );
  }
  void write( int const space, bool const k ) override
  {
    if( !kept.v || !k ) kept.v.reset( new View( a.toNestedView() ) );
    View const v = *kept.v;
    Id const add = 1 + Id( sim::draw( 9 ) );
    kernel( space, I( m.size() ), [v, add]( I const i ) { for( I j = 0; j < v[ i ].size(); ++j ) v[ i ][ j ] += Elem< T >::make( add ); } );
    for( auto & r : m ) for( Id & x : r ) x += add;
  }
  void look() override
  {
    sim::log( "host code reads box %d", id );
    SIM_CHECK( a.size() == I( m.size() ), "wrong-size", "the size is %lld instead of %zu", (long long) a.size(), m.size() );
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      expect( a[ I( i ) ].size(), Id( m[ i ].size() ), "host code", I( i ) );
      for( std::size_t j = 0; j < m[ i ].size(); ++j ) expect( Elem< T >::id( a[ I( i ) ][ I( j ) ] ), m[ i ][ j ], "host code", I( i ), I( j ) );
    }
  }
  void modify() override
  {
    reset();
    sim::log( "box %d is modified", id );
    for( std::uint32_t n = 1 + sim::draw( 3 ); n-- > 0; )
    {
      Id const v = 100 + Id( sim::draw( 1000 ) );
      I const i = I( pick( m.size() ) );
      switch( sim::draw( 8 ) )
      {
        case 0: { I const k = sim::range( 0, 4 ); a.resize( k ); m.resize( std::size_t( k ) ); break; }
        case 1: { Inner x; x.emplace_back( Elem< T >::make( v ) ); a.emplace_back( std::move( x ) ); m.push_back( { v } ); break; }
        case 2: if( !m.empty() ) { a.erase( i ); m.erase( m.begin() + i ); } break;
        case 3: if( !m.empty() ) { I const k = sim::range( 0, 5 ); a[ i ].resize( k ); m[ std::size_t( i ) ].resize( std::size_t( k ), 0 ); } break;
        case 4: if( !m.empty() ) { a[ i ].emplace_back( Elem< T >::make( v ) ); m[ std::size_t( i ) ].push_back( v ); } break;
        case 5: if( !m.empty() ) { I const j = I( pick( m.size() ) ); std::swap( a[ i ], a[ j ] ); std::swap( m[ std::size_t( i ) ], m[ std::size_t( j ) ] ); } break;
        default: if( !m.empty() && !m[ std::size_t( i ) ].empty() ) { I const j = I( pick( m[ std::size_t( i ) ].size() ) ); a[ i ][ j ] = Elem< T >::make( v ); m[ std::size_t( i ) ][ std::size_t( j ) ] = v; }
      }
    }
  }
  void moveTo( MemorySpace const space, bool const touch, int const by ) override
  {
    if( by ) { if( !kept.v ) kept.v.reset( new View( a.toNestedView() ) ); kept.v->move( space, touch ); return; }
    a.move( space, touch );
  }
};

template< typename T >
struct Nested3Box : Common< Array< Array< Array< T, 1, RAJA::PERM_I, I, Buf >, 1, RAJA::PERM_I, I, Buf >, 1, RAJA::PERM_I, I, Buf >, std::vector< Rows >, Nested3Box< T > >
{
  using Inner = Array< Array< T, 1, RAJA::PERM_I, I, Buf >, 1, RAJA::PERM_I, I, Buf >;
  using C = Array< Inner, 1, RAJA::PERM_I, I, Buf >;
  using Self = Common< C, std::vector< Rows >, Nested3Box< T > >;
  using Self::a; using Self::m; using Self::s; using Self::id;
  using View = std::decay_t< decltype( std::declval< C & >().toNestedView() ) >;
  using ViewConst = std::decay_t< decltype( std::declval< C & >().toNestedViewConst() ) >;
  Views< C, View, ViewConst > kept;

  static SIM_NOINSTR Rows const & plane( std::vector< Rows > const & v, std::size_t const i ) { sim::NoTrack q; return v[ i ]; }
  void reset() { kept.reset(); }
  bool nested() const override { return true; }
  std::size_t values() const override { std::size_t n = 0; for( auto const & p : m ) for( auto const & r : p ) n += r.size(); return n; }
  void read( int const space, bool const k ) override
  {
    if( !kept.c || !k ) kept.c.reset( new ViewConst( a.toNestedViewConst() ) );
    ViewConst const v = *kept.c;
    std::vector< Rows > const * const want = &m;
    char const * const who = readerOf( space );
    kernel( space, I( m.size() ), [v, want, who]( I const h )
    {
      Rows const & p = plane( *want, std::size_t( h ) );
      expect( v[ h ].size(), Id( rows( p ) ), who, h );
      for( I i = 0; i < v[ h ].size(); ++i )
      {
        expect( v[ h ][ i ].size(), Id( sizeOf( row( p, std::size_t( i ) ) ) ), who, h, i );
        for( I j = 0; j < v[ h ][ i ].size(); ++j ) expect( Elem< T >::id( v[ h ][ i ][ j ] ), at( row( p, std::size_t( i ) ), std::size_t( j ) ), who, i, j );
      }
    } );
  }
  void write( int const space, bool const k ) override
  {
    if( !kept.v || !k ) kept.v.reset( new View( a.toNestedView() ) );
    View const v = *kept.v;
    Id const add = 1 + Id( sim::draw( 9 ) );
    kernel( space, I( m.size() ), [v, add]( I const h )
    { for( I i = 0; i < v[ h ].size(); ++i ) for( I j = 0; j < v[ h ][ i ].size(); ++j ) v[ h ][ i ][ j ] += Elem< T >::make( add ); } );
    for( auto & p : m ) for( auto & r : p ) for( Id & x : r ) x += add;
  }
  void look() override
  {
    sim::log( "host code reads box %d", id );
    SIM_CHECK( a.size() == I( m.size() ), "wrong-size", "the size is %lld instead of %zu", (long long) a.size(), m.size() );
    for( std::size_t h = 0; h < m.size(); ++h )
      for( std::size_t i = 0; i < m[ h ].size(); ++i )
        for( std::size_t j = 0; j < m[ h ][ i ].size(); ++j ) expect( Elem< T >::id( a[ I( h ) ][ I( i ) ][ I( j ) ] ), m[ h ][ i ][ j ], "host code", I( i ), I( j ) );
  }
  void modify() override
  {
    reset();
    sim::log( "box %d is modified", id );
    for( std::uint32_t n = 1 + sim::draw( 3 ); n-- > 0; )
    {
      Id const v = 100 + Id( sim::draw( 1000 ) );
      I const h = I( pick( m.size() ) );
      if( m.empty() || sim::chance( 1, 5 ) )
      {
        I const k = sim::range( 0, 3 );
        a.resize( k );
        m.resize( std::size_t( k ) );
        continue;
      }
      Rows & p = m[ std::size_t( h ) ];
      I const i = I( pick( p.size() ) );
      if( p.empty() || sim::chance( 1, 5 ) )
      {
        I const k = sim::range( 0, 3 );
        a[ h ].resize( k );
        p.resize( std::size_t( k ) );
        continue;
      }
      if( flip() ) { a[ h ][ i ].emplace_back( Elem< T >::make( v ) ); p[ std::size_t( i ) ].push_back( v ); }
      else if( !p[ std::size_t( i ) ].empty() ) { a[ h ][ i ][ 0 ] = Elem< T >::make( v ); p[ std::size_t( i ) ][ 0 ] = v; }
    }
  }
  void moveTo( MemorySpace const space, bool const touch, int const by ) override
  {
    if( by ) { if( !kept.v ) kept.v.reset( new View( a.toNestedView() ) ); kept.v->move( space, touch ); return; }
    a.move( space, touch );
  }
};

// ------------------------------------------------------------------ sorted arrays
template< typename T >
struct SortedBox : Common< SortedArray< T, I, Buf >, std::vector< Id >, SortedBox< T > >
{
  using C = SortedArray< T, I, Buf >;
  using Self = Common< C, std::vector< Id >, SortedBox< T > >;
  using Self::a; using Self::m; using Self::s; using Self::id;
  using View = std::decay_t< decltype( std::declval< C & >().toView() ) >;
  Views< C, View, View > kept;
  void reset() { kept.reset(); }
  bool neverTouched() const override { return true; }
  std::size_t values() const override { return m.size(); }
  void read( int const space, bool const k ) override
  {
    if( !kept.c || !k ) kept.c.reset( new View( a.toView() ) );
    View const v = *kept.c;
    std::vector< Id > const * const want = &m;
    char const * const who = readerOf( space );
    kernel( space, I( m.size() ), [v, want, who]( I const i )
    {
      expect( v.size(), Id( sizeOf( *want ) ), who, i );
      expect( Elem< T >::id( v[ i ] ), at( *want, std::size_t( i ) ), who, i );
      expect( v.contains( v[ i ] ), 1, who, i );
    } );
  }
  void write( int const space, bool const k ) override { read( space, k ); }
  void look() override
  {
    sim::log( "host code reads box %d", id );
    SIM_CHECK( a.size() == I( m.size() ), "wrong-size", "the size is %lld instead of %zu", (long long) a.size(), m.size() );
    for( std::size_t i = 0; i < m.size(); ++i ) expect( Elem< T >::id( a[ I( i ) ] ), m[ i ], "host code", I( i ) );
  }
  void modify() override
  {
    reset();
    sim::log( "box %d is modified", id );
    for( std::uint32_t n = 1 + sim::draw( 4 ); n-- > 0; )
    {
      Id const v = Id( sim::draw( 24 ) );
      auto const it = std::lower_bound( m.begin(), m.end(), v );
      bool const has = it != m.end() && *it == v;
      switch( sim::draw( 6 ) )
      {
        case 0: case 1: case 2: a.insert( Elem< T >::make( v ) ); if( !has ) m.insert( it, v ); break;
        case 3: a.remove( Elem< T >::make( v ) ); if( has ) m.erase( it ); break;
        case 4: a.reserve( I( m.size() + 3 ) ); break;
        default: if( sim::chance( 1, 4 ) ) { a.clear(); m.clear(); }
      }
    }
  }
  void moveTo( MemorySpace const space, bool const touch, int const by ) override
  {
    if( by ) { if( !kept.c ) kept.c.reset( new View( a.toView() ) ); kept.c->move( space, touch ); return; }
    a.move( space, touch );
  }
};

// ------------------------------------------------------------------ ragged arrays, sets, patterns
enum Kind { ARRAYS, SETS, PATTERN };
template< typename T, int KIND > struct RaggedType;
template< typename T > struct RaggedType< T, ARRAYS >
{
  using C = ArrayOfArrays< T, I, Buf >;
  static void insert( C & a, I const i, T const & v ) { a.emplaceBack( i, v ); }
  template< typename V > static void insertV( V const & v, I const i, T const & x ) { v.emplaceBack( i, x ); }
  template< typename V > static I size( V const & v, I const i ) { return v.sizeOfArray( i ); }
  template< typename V > static T get( V const & v, I const i, I const j ) { return v[ i ][ j ]; }
  static I outer( C const & a ) { return a.size(); }
  static void resize( C & a, I const n, I const cap ) { a.resize( n, cap ); }
  static I cap( C const & a, I const i ) { return a.capacityOfArray( i ); }
  static void fromCaps( C & a, I const n, I const * const c ) { a.template resizeFromCapacities< RAJA::loop_exec >( n, c ); }
  static void setCap( C & a, I const i, I const n ) { a.setCapacityOfArray( i, n ); }
  static void compress( C & a ) { a.compress(); }
  static void removeFirst( C & a, I const i, T const & ) { a.eraseFromArray( i, 0 ); }
};
template< typename T > struct RaggedType< T, SETS >
{
  using C = ArrayOfSets< T, I, Buf >;
  static void insert( C & a, I const i, T const & v ) { a.insertIntoSet( i, v ); }
  template< typename V > static void insertV( V const & v, I const i, T const & x ) { v.insertIntoSet( i, x ); }
  template< typename V > static I size( V const & v, I const i ) { return v.sizeOfSet( i ); }
  template< typename V > static T get( V const & v, I const i, I const j ) { return v[ i ][ j ]; }
  static I outer( C const & a ) { return a.size(); }
  static void resize( C & a, I const n, I const cap ) { a.resize( n, cap ); }
  static I cap( C const & a, I const i ) { return a.capacityOfSet( i ); }
  static void fromCaps( C & a, I const n, I const * const c ) { a.template resizeFromCapacities< RAJA::loop_exec >( n, c ); }
  static void compress( C & a ) { a.compress(); }
  static void setCap( C & a, I const i, I const n ) { a.setCapacityOfSet( i, n ); }
  static void removeFirst( C & a, I const i, T const & v ) { a.removeFromSet( i, v ); }
};
template< typename T > struct RaggedType< T, PATTERN >
{
  using C = SparsityPattern< T, I, Buf >;
  static void insert( C & a, I const i, T const & v ) { a.insertNonZero( i, v ); }
  template< typename V > static void insertV( V const & v, I const i, T const & x ) { v.insertNonZero( i, x ); }
  template< typename V > static I size( V const & v, I const i ) { return v.numNonZeros( i ); }
  template< typename V > static T get( V const & v, I const i, I const j ) { return v.getColumns( i )[ j ]; }
  static I outer( C const & a ) { return a.numRows(); }
  static void resize( C & a, I const n, I const cap ) { a.resize( n, 1000, cap ); }
  static I cap( C const & a, I const i ) { return a.nonZeroCapacity( i ); }
  static void fromCaps( C & a, I const n, I const * const c ) { a.template resizeFromRowCapacities< RAJA::loop_exec >( n, 1000, c ); }
  static void compress( C & a ) { a.compress(); }
  static void setCap( C & a, I const i, I const n ) { a.setRowCapacity( i, n ); }
  static void removeFirst( C & a, I const i, T const & v ) { a.removeNonZero( i, v ); }
};

struct RaggedModel
{
  Rows m;
  std::vector< I > caps;
};

SIM_NOINSTR I capOf( std::vector< I > const & c, I const i ) { sim::NoTrack q; return c[ std::size_t( i ) ]; }

template< typename T, int KIND >
struct RaggedBox : Common< typename RaggedType< T, KIND >::C, RaggedModel, RaggedBox< T, KIND > >
{
  using Ops = RaggedType< T, KIND >;
  using C = typename Ops::C;
  using Self = Common< C, RaggedModel, RaggedBox< T, KIND > >;
  using Self::a; using Self::s; using Self::id;
  using View = std::decay_t< decltype( std::declval< C & >().toView() ) >;
  using ViewConst = std::decay_t< decltype( std::declval< C & >().toViewConst() ) >;
  Views< C, View, ViewConst > kept;
  Rows & m = Self::m.m;
  std::vector< I > & caps = Self::m.caps;

  void reset() { kept.reset(); }
  std::size_t values() const override { std::size_t n = 0; for( auto const & r : m ) n += r.size(); return n; }

  void read( int const space, bool const k ) override
  {
    if( !kept.c || !k ) kept.c.reset( new ViewConst( a.toViewConst() ) );
    ViewConst const v = *kept.c;
    Rows const * const want = &m;
    char const * const who = readerOf( space );
    kernel( space, I( m.size() ), [v, want, who]( I const i )
    {
      I const n = Ops::size( v, i );
      expect( n, Id( sizeOf( row( *want, std::size_t( i ) ) ) ), who, i );
      for( I j = 0; j < n; ++j ) expect( Elem< T >::id( Ops::get( v, i, j ) ), at( row( *want, std::size_t( i ) ), std::size_t( j ) ), who, i, j );
    } );
  }

  static bool add( std::vector< Id > & r, Id const x, std::integral_constant< int, ARRAYS > ) { r.push_back( x ); return true; }
  template< int K > static bool add( std::vector< Id > & r, Id const x, std::integral_constant< int, K > )
  {
    auto const it = std::lower_bound( r.begin(), r.end(), x );
    if( it != r.end() && *it == x ) return false;
    r.insert( it, x );
    return true;
  }

  /// Change values only, through the view with constant sizes.
  void writeValues( int const space, std::integral_constant< int, ARRAYS > )
  {
    auto const v = a.toViewConstSizes();
    Id const plus = 1 + Id( sim::draw( 9 ) );
    kernel( space, I( m.size() ), [v, plus]( I const i ) { for( I j = 0; j < v.sizeOfArray( i ); ++j ) v( i, j ) += Elem< T >::make( plus ); } );
    for( auto & r : m ) for( Id & x : r ) x += plus;
    this->everything = false;
    sim::probe( "const-sizes" );
  }
  template< int K > void writeValues( int const space, std::integral_constant< int, K > ) { grow( space, true ); }

  void grow( int const space, bool const k )
  {
    if( !kept.v || !k ) kept.v.reset( new View( a.toView() ) );
    View const v = *kept.v;
    Id const x = 20 + Id( sim::draw( 40 ) );
    std::vector< I > const * const c = &caps;
    kernel( space, I( m.size() ), [v, x, c]( I const i )
    { if( Ops::size( v, i ) < capOf( *c, i ) ) Ops::insertV( v, i, Elem< T >::make( x ) ); } );
    for( std::size_t i = 0; i < m.size(); ++i ) if( I( m[ i ].size() ) < caps[ i ] ) add( m[ i ], x, std::integral_constant< int, KIND >{} );
  }
  void write( int const space, bool const k ) override
  {
    if( flip() ) grow( space, k );
    else writeValues( space, std::integral_constant< int, KIND >{} );
  }
  void look() override
  {
    sim::log( "host code reads box %d", id );
    SIM_CHECK( Ops::outer( a ) == I( m.size() ), "wrong-size", "the size is %lld instead of %zu", (long long) Ops::outer( a ), m.size() );
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      expect( Ops::size( a, I( i ) ), Id( m[ i ].size() ), "host code", I( i ) );
      for( std::size_t j = 0; j < m[ i ].size(); ++j ) expect( Elem< T >::id( Ops::get( a, I( i ), I( j ) ) ), m[ i ][ j ], "host code", I( i ), I( j ) );
    }
  }
  void modify() override
  {
    reset();
    for( std::uint32_t n = 1 + sim::draw( 4 ); n-- > 0; )
    {
      Id const x = Id( sim::draw( 60 ) );
      I const i = I( pick( m.size() ) );
      switch( sim::draw( 10 ) )
      {
        case 0:
        {
          I const k = sim::range( 0, 4 ), c = sim::range( 0, 3 );
          sim::log( "box %d gets %lld rows", id, (long long) k );
          Ops::resize( a, k, c );
          m.resize( std::size_t( k ) );
          break;
        }
        case 1:
        {
          std::vector< I > c;
          for( I k = sim::range( 0, 4 ); k > 0; --k ) c.push_back( sim::range( 0, 4 ) );
          sim::log( "box %d is made from %zu capacities", id, c.size() );
          c.push_back( 0 );
          Ops::fromCaps( a, I( c.size() ) - 1, c.data() );
          m.assign( c.size() - 1, {} );
          break;
        }
        case 9: if( !m.empty() )
          {
            I const c = sim::range( 0, 5 );
            sim::log( "box %d gets the capacity %lld for row %lld", id, (long long) c, (long long) i );
            Ops::setCap( a, i, c );
            if( I( m[ std::size_t( i ) ].size() ) > c ) m[ std::size_t( i ) ].resize( std::size_t( c ) );
          }
          break;
        case 2: if( !m.empty() ) { sim::log( "box %d is compressed", id ); Ops::compress( a ); } break;
        case 3: if( !m.empty() && !m[ std::size_t( i ) ].empty() )
          {
            sim::log( "box %d loses a value of row %lld", id, (long long) i );
            Ops::removeFirst( a, i, Elem< T >::make( m[ std::size_t( i ) ][ 0 ] ) );
            m[ std::size_t( i ) ].erase( m[ std::size_t( i ) ].begin() );
          }
          break;
        default: if( !m.empty() )
          {
            sim::log( "box %d gets %lld in row %lld", id, (long long) x, (long long) i );
            Ops::insert( a, i, Elem< T >::make( x ) );
            add( m[ std::size_t( i ) ], x, std::integral_constant< int, KIND >{} );
          }
      }
    }
    refresh();
  }
  void refresh()
  {
    caps.clear();
    for( std::size_t i = 0; i < m.size(); ++i ) caps.push_back( Ops::cap( a, I( i ) ) );
  }
  /// The capacities of a copy may differ.
  void made() { if( s.own && s.modifiable && s.valid[ HOST ] ) refresh(); }
  void moveTo( MemorySpace const space, bool const touch, int const by ) override
  {
    if( by ) { if( !kept.v ) kept.v.reset( new View( a.toView() ) ); kept.v->move( space, touch ); return; }
    a.move( space, touch );
  }
  bool special( std::integral_constant< int, ARRAYS > )
  {
    if( flip() )
    { // many add to the same row
      int const space = pickSpace();
      auto const v = a.toView();
      Id const x = Id( sim::draw( 40 ) );
      std::vector< I > room;
      for( std::size_t i = 0; i < m.size(); ++i ) if( caps[ i ] - I( m[ i ].size() ) >= 2 ) { room.push_back( I( i ) ); room.push_back( I( i ) ); m[ i ].push_back( x ); m[ i ].push_back( x ); }
      sim::log( "kernel on the %s adds to box %d atomically", nameOf( space ), id );
      std::vector< I > const * const r = &room;
      kernel( space, I( room.size() ), [v, x, r]( I const k ) { v.template emplaceBackAtomic< RAJA::auto_atomic >( capOf( *r, k ), Elem< T >::make( x ) ); } );
      this->captured( space, true );
      sim::probe( "atomically" );
    }
    else
    {
      int const space = HOST;
      this->explicitMove( space, false );
      sim::log( "host code changes box %d and touches it", id );
      for( std::size_t i = 0; i < m.size(); ++i ) for( std::size_t j = 0; j < m[ i ].size(); ++j ) { a( I( i ), I( j ) ) += Elem< T >::make( 1 ); m[ i ][ j ] += 1; }
      a.toView().registerTouch( toSpace( space ) );
      s.valid[ DEVICE ] = false;
      s.modifiable = true;
      sim::probe( "touched-afterwards" );
    }
    return true;
  }
  template< int K > bool special( std::integral_constant< int, K > ) { return false; }
  bool special() override
  {
    if( !m.empty() && sim::chance( 1, 3 ) )
    { // a kernel on the host touches values and sizes, the offsets change by the container
      this->kernelRead( DEVICE );
      this->explicitMove( HOST, false );
      this->captured( HOST, true );
      sim::log( "kernel on the host changes box %d", id );
      grow( HOST, flip() );
      I const i = I( pick( m.size() ) ), c = sim::range( 0, 6 );
      sim::log( "box %d gets the capacity %lld for row %lld", id, (long long) c, (long long) i );
      reset();
      Ops::setCap( a, i, c );
      if( I( m[ std::size_t( i ) ].size() ) > c ) m[ std::size_t( i ) ].resize( std::size_t( c ) );
      refresh();
      s.valid[ DEVICE ] = false;
      if( flip() ) this->kernelRead( DEVICE );
      sim::probe( "offsets-touched" );
      return true;
    }
    return special( std::integral_constant< int, KIND >{} );
  }
};

// ------------------------------------------------------------------ arrays of ragged arrays
template< typename T >
struct NestedRaggedBox : Common< Array< ArrayOfArrays< T, I, Buf >, 1, RAJA::PERM_I, I, Buf >, std::vector< Rows >, NestedRaggedBox< T > >
{
  using Inner = ArrayOfArrays< T, I, Buf >;
  using C = Array< Inner, 1, RAJA::PERM_I, I, Buf >;
  using Self = Common< C, std::vector< Rows >, NestedRaggedBox< T > >;
  using Self::a; using Self::m; using Self::s; using Self::id;
  using View = std::decay_t< decltype( std::declval< C & >().toNestedView() ) >;
  using ViewConst = std::decay_t< decltype( std::declval< C & >().toNestedViewConst() ) >;
  Views< C, View, ViewConst > kept;

  static SIM_NOINSTR Rows const & plane( std::vector< Rows > const & v, std::size_t const i ) { sim::NoTrack q; return v[ i ]; }
  void reset() { kept.reset(); }
  std::size_t ownTransfers() const override { return 1; } // the views of the ragged arrays are not constant
  bool nested() const override { return true; }
  std::size_t values() const override { std::size_t n = 0; for( auto const & p : m ) for( auto const & r : p ) n += r.size(); return n; }
  template< typename V >
  static void compare( V const & v, Rows const & p, I const h, char const * const who )
  {
    expect( v.size(), Id( rows( p ) ), who, h );
    for( I i = 0; i < v.size(); ++i )
    {
      expect( v.sizeOfArray( i ), Id( sizeOf( row( p, std::size_t( i ) ) ) ), who, h, i );
      for( I j = 0; j < v.sizeOfArray( i ); ++j ) expect( Elem< T >::id( v( i, j ) ), at( row( p, std::size_t( i ) ), std::size_t( j ) ), who, i, j );
    }
  }
  void read( int const space, bool const k ) override
  {
    if( !kept.c || !k ) kept.c.reset( new ViewConst( a.toNestedViewConst() ) );
    ViewConst const v = *kept.c;
    std::vector< Rows > const * const want = &m;
    char const * const who = readerOf( space );
    kernel( space, I( m.size() ), [v, want, who]( I const h ) { compare( v[ h ], plane( *want, std::size_t( h ) ), h, who ); } );
  }
  void write( int const space, bool const k ) override
  {
    if( !kept.v || !k ) kept.v.reset( new View( a.toNestedView() ) );
    View const v = *kept.v;
    Id const add = 1 + Id( sim::draw( 9 ) );
    bool const sizes = flip();
    kernel( space, I( m.size() ), [v, add, sizes]( I const h )
    {
      for( I i = 0; i < v[ h ].size(); ++i )
      {
        for( I j = 0; j < v[ h ].sizeOfArray( i ); ++j ) v[ h ]( i, j ) += Elem< T >::make( add );
        if( sizes && v[ h ].sizeOfArray( i ) > 0 ) v[ h ].eraseFromArray( i, 0 );
      }
    } );
    for( auto & p : m ) for( auto & r : p )
    {
      for( Id & x : r ) x += add;
      if( sizes && !r.empty() ) r.erase( r.begin() );
    }
  }
  void look() override
  {
    sim::log( "host code reads box %d", id );
    SIM_CHECK( a.size() == I( m.size() ), "wrong-size", "the size is %lld instead of %zu", (long long) a.size(), m.size() );
    for( std::size_t h = 0; h < m.size(); ++h ) compare( a[ I( h ) ], m[ h ], I( h ), "host code" );
  }
  void modify() override
  {
    reset();
    sim::log( "box %d is modified", id );
    for( std::uint32_t n = 1 + sim::draw( 4 ); n-- > 0; )
    {
      Id const v = 100 + Id( sim::draw( 1000 ) );
      I const h = I( pick( m.size() ) );
      if( m.empty() || sim::chance( 1, 6 ) )
      {
        I const k = sim::range( 0, 3 );
        a.resize( k );
        m.resize( std::size_t( k ) );
        continue;
      }
      Rows & p = m[ std::size_t( h ) ];
      I const i = I( pick( p.size() ) );
      if( p.empty() || sim::chance( 1, 6 ) )
      {
        I const k = sim::range( 0, 3 );
        a[ h ].resize( k );
        p.resize( std::size_t( k ) );
        continue;
      }
      a[ h ].emplaceBack( i, Elem< T >::make( v ) );
      p[ std::size_t( i ) ].push_back( v );
    }
  }
  void moveTo( MemorySpace const space, bool const touch, int const by ) override
  {
    if( by ) { if( !kept.v ) kept.v.reset( new View( a.toNestedView() ) ); kept.v->move( space, touch ); return; }
    a.move( space, touch );
  }
};

// ------------------------------------------------------------------ matrices
using Matrix = std::vector< std::map< Id, Id > >;
struct MatrixModel { Matrix m; std::vector< I > caps; };
SIM_NOINSTR std::size_t rowSize( Matrix const & m, I const i ) { sim::NoTrack q; return m[ std::size_t( i ) ].size(); }
SIM_NOINSTR Id entry( Matrix const & m, I const i, Id const c ) { sim::NoTrack q; auto const it = m[ std::size_t( i ) ].find( c ); return it == m[ std::size_t( i ) ].end() ? -998 : it->second; }

template< typename T >
struct MatrixBox : Common< CRSMatrix< T, int, I, Buf >, MatrixModel, MatrixBox< T > >
{
  using C = CRSMatrix< T, int, I, Buf >;
  using Self = Common< C, MatrixModel, MatrixBox< T > >;
  using Self::a; using Self::s; using Self::id;
  using View = std::decay_t< decltype( std::declval< C & >().toView() ) >;
  using ViewConst = std::decay_t< decltype( std::declval< C & >().toViewConst() ) >;
  Views< C, View, ViewConst > kept;
  Matrix & m = Self::m.m;
  std::vector< I > & caps = Self::m.caps;

  void reset() { kept.reset(); }
  std::size_t values() const override { std::size_t n = 0; for( auto const & r : m ) n += r.size(); return n; }

  template< typename V >
  static void compare( V const & v, I const i, Matrix const & want, char const * const who )
  {
    I const n = v.numNonZeros( i );
    expect( n, Id( rowSize( want, i ) ), who, i );
    Id last = -1;
    for( I j = 0; j < n; ++j )
    {
      Id const c = Id( v.getColumns( i )[ j ] );
      expect( c > last, 1, who, i, j );
      last = c;
      expect( Elem< T >::id( v.getEntries( i )[ j ] ), entry( want, i, c ), who, i, j );
    }
  }
  void read( int const space, bool const k ) override
  {
    if( !kept.c || !k ) kept.c.reset( new ViewConst( a.toViewConst() ) );
    ViewConst const v = *kept.c;
    Matrix const * const want = &m;
    char const * const who = readerOf( space );
    kernel( space, I( m.size() ), [v, want, who]( I const i ) { compare( v, i, *want, who ); } );
  }
  void write( int const space, bool const k ) override
  {
    Id const x = Id( sim::draw( 40 ) );
    int const col = int( sim::draw( 12 ) );
    switch( sim::draw( 3 ) )
    {
      case 0:
      { // entries only
        auto const v = a.toViewConstSizes();
        kernel( space, I( m.size() ), [v, x]( I const i )
        { for( I j = 0; j < v.numNonZeros( i ); ++j ) v.getEntries( i )[ j ] += Elem< T >::make( x ); } );
        for( auto & r : m ) for( auto & e : r ) e.second += x;
        this->everything = false;
    sim::probe( "const-sizes" );
        break;
      }
      case 1:
      { // several add to the same row
        auto const v = a.toViewConstSizes();
        std::vector< I > todo;
        for( std::size_t i = 0; i < m.size(); ++i ) if( m[ i ].count( col ) ) { todo.push_back( I( i ) ); todo.push_back( I( i ) ); m[ i ][ col ] += 2 * x; }
        std::vector< I > const * const t = &todo;
        kernel( space, I( todo.size() ), [v, x, col, t]( I const k2 )
        {
          int const c = col;
          T const val = Elem< T >::make( x );
          v.template addToRowBinarySearchUnsorted< RAJA::auto_atomic >( capOf( *t, k2 ), &c, &val, 1 );
        } );
        this->everything = false;
        sim::probe( "atomically" );
        break;
      }
      default:
      { // the sizes too
        if( !kept.v || !k ) kept.v.reset( new View( a.toView() ) );
        View const v = *kept.v;
        std::vector< I > const * const c = &caps;
        bool const remove = sim::chance( 1, 3 );
        kernel( space, I( m.size() ), [v, x, c, col, remove]( I const i )
        {
          if( remove ) v.removeNonZero( i, col );
          else if( v.numNonZeros( i ) < capOf( *c, i ) ) v.insertNonZero( i, col, Elem< T >::make( x ) );
        } );
        for( std::size_t i = 0; i < m.size(); ++i )
        {
          if( remove ) m[ i ].erase( col );
          else if( I( m[ i ].size() ) < caps[ i ] ) m[ i ].insert( { col, x } );
        }
      }
    }
  }
  void look() override
  {
    sim::log( "host code reads box %d", id );
    SIM_CHECK( a.numRows() == I( m.size() ), "wrong-size", "there are %lld rows instead of %zu", (long long) a.numRows(), m.size() );
    for( std::size_t i = 0; i < m.size(); ++i ) compare( a, I( i ), m, "host code" );
  }
  void modify() override
  {
    reset();
    for( std::uint32_t n = 1 + sim::draw( 4 ); n-- > 0; )
    {
      Id const x = Id( sim::draw( 60 ) );
      int const col = int( sim::draw( 12 ) );
      I const i = I( pick( m.size() ) );
      switch( sim::draw( 9 ) )
      {
        case 0:
        {
          I const k = sim::range( 0, 4 );
          sim::log( "box %d gets %lld rows", id, (long long) k );
          a.resize( k, 12, sim::range( 0, 3 ) );
          m.resize( std::size_t( k ) );
          break;
        }
        case 1:
        {
          std::vector< I > c;
          for( I k = sim::range( 0, 4 ); k > 0; --k ) c.push_back( sim::range( 0, 4 ) );
          sim::log( "box %d is made from %zu capacities", id, c.size() );
          c.push_back( 0 );
          a.template resizeFromRowCapacities< RAJA::loop_exec >( I( c.size() ) - 1, 12, c.data() );
          m.assign( c.size() - 1, {} );
          break;
        }
        case 2: if( !m.empty() ) { sim::log( "box %d is compressed", id ); a.compress(); } break;
        case 3: if( !m.empty() ) { a.removeNonZero( i, col ); m[ std::size_t( i ) ].erase( col ); } break;
        default: if( !m.empty() )
          {
            sim::log( "box %d gets an entry in row %lld", id, (long long) i );
            a.insertNonZero( i, col, Elem< T >::make( x ) );
            m[ std::size_t( i ) ].insert( { col, x } );
          }
      }
    }
    refresh();
  }
  void refresh()
  {
    caps.clear();
    for( std::size_t i = 0; i < m.size(); ++i ) caps.push_back( a.nonZeroCapacity( I( i ) ) );
  }
  void made() { if( s.own && s.modifiable && s.valid[ HOST ] ) refresh(); }
  void moveTo( MemorySpace const space, bool const touch, int const by ) override
  {
    if( by ) { if( !kept.v ) kept.v.reset( new View( a.toView() ) ); kept.v->move( space, touch ); return; }
    a.move( space, touch );
  }
  bool special() override
  {
    switch( sim::draw( 3 ) )
    {
      case 0:
      {
        if( m.empty() ) return false;
        int const space = pickSpace();
        this->explicitMove( space, flip() );
        sim::log( "box %d becomes zero where it was used last", id );
        a.zero();
        for( auto & r : m ) for( auto & e : r ) e.second = 0;
        s.own = space == HOST;
        s.valid[ space ] = true;
        s.valid[ 1 - space ] = false;
        sim::probe( "zeroed" );
        break;
      }
      case 1:
      {
        int const space = pickSpace();
        Id const x = Id( sim::draw( 40 ) );
        sim::log( "entries of box %d become %lld on the %s", id, (long long) x, nameOf( space ) );
#if defined( LVARRAY_USE_CUDA )
        if( space == DEVICE ) a.template setValues< device_exec >( Elem< T >::make( x ) );
        else
#endif
        a.template setValues< RAJA::loop_exec >( Elem< T >::make( x ) );
        for( auto & r : m ) for( auto & e : r ) e.second = x;
        this->everything = false;
        this->captured( space, true );
        sim::probe( "set-values" );
        break;
      }
      default:
      { // from a pattern that was used on the device
        int const space = pickSpace();
        SparsityPattern< int, I, Buf > p( sim::range( 0, 4 ), 12, 3 );
        Matrix want( std::size_t( p.numRows() ) );
        for( I i = 0; i < p.numRows(); ++i )
          for( I k = sim::range( 0, 3 ); k > 0; --k ) { int const c = int( sim::draw( 12 ) ); p.insertNonZero( i, c ); want[ std::size_t( i ) ][ c ] = 0; }
        auto const v = p.toViewConst();
        Matrix const * const w = &want;
        kernel( pickSpace(), I( want.size() ), [v, w]( I const i ) { expect( v.numNonZeros( i ), Id( rowSize( *w, i ) ), "a kernel", i ); } );
        sim::log( "box %d takes over a pattern on the %s", id, nameOf( space ) );
        reset();
        this->forModification();
#if defined( LVARRAY_USE_CUDA )
        if( space == DEVICE ) a.template assimilate< device_exec >( std::move( p ) );
        else
#endif
        a.template assimilate< RAJA::loop_exec >( std::move( p ) );
        m = want;
        s = State();
        s.modifiable = false;
        this->everything = false;
        this->captured( space, true );
        caps.clear();
        this->explicitMove( HOST, false );
        refresh();
        sim::probe( "assimilated" );
      }
    }
    return true;
  }
};

// ------------------------------------------------------------------ a run
template< typename B >
void runWith()
{
  LeakCheck leaks;
  {
    B x, y;
    B * const both[] = { &x, &y };
    x.id = 0;
    y.id = 1;
    for( int n = 0; n < 44 && sim::more( 24 ); ++n )
    {
      sim::Span span;
      B & b = *both[ sim::chance( 1, 4 ) ];
      std::uint32_t const op = sim::draw( 20 );
      if( op < 4 ) b.kernelRead( pickSpace() );
      else if( op < 8 ) b.kernelWrite( pickSpace() );
      else if( op < 11 ) { b.forModification(); b.modify(); }
      else if( op < 13 ) { int const s = pickSpace(); bool const touch = flip(); b.explicitMove( s, touch, sim::chance( 1, 4 ) ); }
      else if( op < 16 ) { b.forReading(); b.look(); }
      else if( op < 17 ) { if( b.readable() ) b.look(); }
      else if( op < 18 ) b.special();
      else if( op < 19 ) b.exchange( *both[ 1 ], int( sim::draw( 4 ) ) );
      else if( sim::chance( 1, 3 ) ) b.recreate();
      if( b.values() > 1 && !b.s.own ) sim::probe( "nontrivial" );
      if( b.values() > 1 && !hasDevice ) sim::probe( "nontrivial" );
    }
    if( flip() ) for( B * const b : both ) { b->forReading(); b->look(); }
  }
  SIM_CHECK( umpire::ResourceManager::getInstance().live() == 0, "leak", "%zu allocations remain after everything was destroyed", umpire::ResourceManager::getInstance().live() );
  leaks.check( "everything was destroyed" );
}

/// Several threads of the host, each with containers of its own: only the allocators are shared. Some of the code is in
/// another translation unit.
void runThreads()
{
  LeakCheck leaks;
  callers( 2 + int( sim::draw( 3 ) ), []( int )
  {
    if( sim::chance( 1, 3 ) ) { otherUnit(); return; }
    ArrayBox< std::int64_t, 1, RAJA::PERM_I > x;
    RaggedBox< std::int64_t, ARRAYS > y;
    NestedBox< int > z;
    for( int n = 0; n < 4; ++n )
    {
      switch( sim::draw( 3 ) )
      {
        case 0: x.modify(); x.look(); break;
        case 1: y.modify(); y.look(); break;
        default: z.modify(); z.look(); break;
      }
    }
  } );
  SIM_CHECK( umpire::ResourceManager::getInstance().live() == 0, "leak", "%zu allocations remain after everything was destroyed", umpire::ResourceManager::getInstance().live() );
  leaks.check( "everything was destroyed" );
  sim::probe( "nontrivial" );
}

} // namespace

void scenarioWarmup()
{
  LvArray::internal::getArrayManager();
  umpire::ResourceManager & rm = umpire::ResourceManager::getInstance();
  rm.makeAllocator< umpire::strategy::DynamicPool >( "HOST_pool", rm.getAllocator( "HOST" ) );
  rm.makeAllocator< umpire::strategy::DynamicPool >( "DEVICE_pool", rm.getAllocator( "DEVICE" ) );
}

void scenario()
{
  switch( sim::draw( 13 ) )
  {
    case 0: runWith< ArrayBox< std::int64_t, 1, RAJA::PERM_I > >(); break;
    case 1: runWith< ArrayBox< double, 2, RAJA::PERM_JI > >(); break;
    case 2: runWith< ArrayBox< int, 2, RAJA::PERM_IJ > >(); break;
    case 3: case 4: runWith< NestedBox< std::int64_t > >(); break;
    case 5: runWith< Nested3Box< int > >(); break;
    case 6: runWith< SortedBox< std::int64_t > >(); break;
    case 7: runWith< RaggedBox< std::int64_t, ARRAYS > >(); break;
    case 8: runWith< RaggedBox< double, SETS > >(); break;
    case 9: runWith< RaggedBox< int, PATTERN > >(); break;
    case 10: runWith< MatrixBox< double > >(); break;
    case 11: runWith< NestedRaggedBox< std::int64_t > >(); break;
    default: runThreads(); break;
  }
}
