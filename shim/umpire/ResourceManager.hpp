// Minimal stand-in for umpire: a host and a device allocator, named pools over them, and copies between spaces.
#pragma once

#include "camp/resource.hpp"

#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <vector>

#if defined( LVSIM )
  #include "sim.hpp"
#endif

namespace umpire
{

constexpr int hostAllocatorId = 0;
constexpr int deviceAllocatorId = 1;

class ResourceManager;

namespace util
{
/// What allocators throw if there is no memory left.
class Exception : public std::exception
{
public:
  explicit Exception( char const * const what ): m_what( what ) {}
  char const * what() const noexcept override { return m_what; }
private:
  char const * m_what;
};
} // namespace util

namespace detail
{
struct AllocatorInfo { std::string name; bool device; };
struct Allocation { std::size_t size; int allocator; };
} // namespace detail

class Allocator
{
public:
  Allocator( ResourceManager * rm, int id ): m_rm( rm ), m_id( id ) {}
  int getId() const { return m_id; }
  std::string const & getName() const;
  void * allocate( std::size_t bytes );
  void deallocate( void * p );
private:
  ResourceManager * m_rm;
  int m_id;
};

namespace strategy
{
class DynamicPool {};
class QuickPool {};
} // namespace strategy

class ResourceManager
{
public:
  static ResourceManager & getInstance()
  { static ResourceManager rm; return rm; }

  bool hasAllocator( void * const p )
  {
    Quiet q; (void) q;
    return find( p ) != m_allocations.end();
  }
  Allocator getAllocator( std::string const & name )
  {
    for( std::size_t i = 0; i < m_allocators.size(); ++i ) if( m_allocators[ i ].name == name ) return Allocator( this, int( i ) );
    std::abort();
  }
  Allocator getAllocator( char const * name ) { return getAllocator( std::string( name ) ); }
  Allocator getAllocator( int const id ) { return Allocator( this, id ); }
  Allocator getAllocator( void * const p ) { Quiet q; (void) q; auto it = find( p ); if( it == m_allocations.end() ) std::abort(); return Allocator( this, it->second.allocator ); }

  template< typename STRATEGY >
  Allocator makeAllocator( std::string const & name, Allocator base )
  {
    m_allocators.push_back( detail::AllocatorInfo{ name, m_allocators[ std::size_t( base.getId() ) ].device } );
    return Allocator( this, int( m_allocators.size() ) - 1 );
  }

  void copy( void * const dst, void * const src, std::size_t const size )
  {
    checkRange( dst, size, "destination" );
    checkRange( src, size, "source" );
    doCopy( dst, src, size );
  }

  camp::resources::Event copy( void * const dst, void * const src, camp::resources::Resource & r, std::size_t const size )
  {
    checkRange( dst, size, "destination" );
    checkRange( src, size, "source" );
    camp::resources::Cuda * const cuda = r.try_get< camp::resources::Cuda >();
    if( !cuda )
    {
#if defined( LVSIM )
      ::sim::fail( "umpire-host-resource", "umpire is given a host resource for a copy, which it does not support" );
#else
      std::abort();
#endif
    }
    cuda->stream().push( [this, dst, src, size] { doCopy( dst, src, size ); } );
    camp::resources::Event const e = r.get_event();
    camp::resources::simulateProgress();
    return e;
  }

  void memset( void * const dst, int const v, std::size_t const size )
  {
    checkRange( dst, size, "destination" );
    // the real one runs on the owning device
#if defined( LVSIM )
    std::vector< unsigned char > tmp( size, static_cast< unsigned char >( v ) );
    ::sim::rawCopy( dst, tmp.data(), size );
#else
    std::memset( dst, v, size );
#endif
  }

  void * allocate( int const id, std::size_t const bytes )
  {
    Quiet q; (void) q;
    if( m_failNext > 0 && --m_failNext == 0 ) { ++m_failures; fired(); throw util::Exception( "out of memory" ); }
    void * p;
#if defined( LVSIM )
    p = m_allocators[ std::size_t( id ) ].device ? ::sim::devAlloc( bytes ) : ::sim::hostAlloc( bytes );
#else
    p = std::malloc( bytes ? bytes : 1 );
#endif
    m_allocations[ p ] = detail::Allocation{ bytes, id };
    return p;
  }

  void deallocate( int const id, void * const p )
  {
    Quiet q; (void) q;
    auto it = m_allocations.find( p );
#if defined( LVSIM )
    if( it == m_allocations.end() ) ::sim::fail( "bad-free", "a pointer unknown to the allocator is released (freed twice or never allocated)" );
    if( it->second.allocator != id ) ::sim::fail( "bad-free", "an allocation is released to a different allocator than it came from" );
    m_allocations.erase( it );
    if( m_allocators[ std::size_t( id ) ].device ) ::sim::devFree( p ); else ::sim::hostFree( p );
#else
    (void) id;
    m_allocations.erase( it );
    std::free( p );
#endif
  }

  std::string const & nameOf( int const id ) const { return m_allocators[ std::size_t( id ) ].name; }
  std::size_t live() const { return m_allocations.size(); }
  std::size_t live( int const id ) const { std::size_t n = 0; for( auto const & a : m_allocations ) n += a.second.allocator == id; return n; }

  /// The n-th allocation from now on fails, none with 0.
  void failNext( int const n ) { m_failNext = n; }
  std::size_t failures() const { return m_failures; }

private:
#if defined( LVSIM )
  using Quiet = ::sim::NoTrack;
#else
  struct Quiet {};
#endif

  ResourceManager() { m_allocators.push_back( { "HOST", false } ); m_allocators.push_back( { "DEVICE", true } ); }

  // umpire finds the allocation that contains a pointer
  std::map< void *, detail::Allocation >::iterator find( void * const p )
  {
    auto it = m_allocations.upper_bound( p );
    if( it == m_allocations.begin() ) return m_allocations.end();
    --it;
    std::size_t const off = std::size_t( static_cast< char * >( p ) - static_cast< char * >( it->first ) );
    return off < it->second.size || off == 0 ? it : m_allocations.end();
  }

  void checkRange( void * const p, std::size_t const size, char const * const what )
  {
    (void) what;
    Quiet q; (void) q;
    auto it = find( p );
    bool ok = it != m_allocations.end();
    if( ok ) ok = std::size_t( static_cast< char * >( p ) - static_cast< char * >( it->first ) ) + size <= it->second.size;
#if defined( LVSIM )
    if( !ok ) ::sim::fail( "transfer-out-of-bounds", "a block copy's %s is not inside one allocation", what );
#else
    if( !ok ) std::abort();
#endif
  }

  void doCopy( void * const dst, void * const src, std::size_t const size )
  {
#if defined( LVSIM )
    if( !::sim::addressable( dst, size ) || !::sim::addressable( src, size ) )
      ::sim::fail( "transfer-out-of-bounds", "a block copy is performed on memory that is no longer allocated" );
    ::sim::rawCopy( dst, src, size );
#else
    std::memmove( dst, src, size );
#endif
  }

  std::vector< detail::AllocatorInfo > m_allocators;
  std::map< void *, detail::Allocation > m_allocations;
  static void fired()
  {
#if defined( LVSIM )
    ::sim::fault_fired( "allocator-throws" );
#endif
  }
  int m_failNext = 0;
  std::size_t m_failures = 0;
};

inline std::string const & Allocator::getName() const { return m_rm->nameOf( m_id ); }
inline void * Allocator::allocate( std::size_t const bytes ) { return m_rm->allocate( m_id, bytes ); }
inline void Allocator::deallocate( void * const p ) { m_rm->deallocate( m_id, p ); }

} // namespace umpire
