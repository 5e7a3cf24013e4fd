// Minimal stand-in for camp resources. A Cuda resource is a simulated asynchronous stream: the work given to it is
// performed later, at a moment the simulator chooses, but never after the matching event or the stream was waited for.
#pragma once

#include "camp/camp.hpp"

#include <cstring>
#include <deque>
#include <functional>
#include <memory>
#include <new>
#include <typeindex>
#include <typeinfo>

#if defined( LVSIM )
  #include "sim.hpp"
#endif

namespace camp
{
namespace resources
{

enum class Platform { undefined = 0, host = 1, cuda = 2, omp_target = 4, hip = 8, sycl = 16 };

namespace detail
{
struct Op { std::size_t id; std::function< void() > work; };

struct Stream
{
  std::deque< Op > pending;
  std::size_t issued = 0;
  std::size_t completed = 0;
  Stream * next = nullptr;     // all streams, in the order they were made

  static Stream * & first() { static Stream * s = nullptr; return s; }

  Stream()
  {
    Stream ** p = &first();
    while( *p ) p = &( *p )->next;
    *p = this;
  }
  Stream( Stream const & ) = delete;
  ~Stream()
  {
    Stream ** p = &first();
    while( *p != this ) p = &( *p )->next;
    *p = next;
  }

  void push( std::function< void() > work )
  { pending.push_back( Op{ ++issued, std::move( work ) } ); }

  void step()
  {
    if( pending.empty() ) return;
    Op op = std::move( pending.front() );
    pending.pop_front();
    op.work();
    completed = op.id;
  }

  void drainTo( std::size_t id )
  { while( completed < id && !pending.empty() ) step(); }
};
} // namespace detail

/// The device makes progress: the simulator decides which streams perform how many of their pending operations.
inline void simulateProgress()
{
#if defined( LVSIM )
  for( detail::Stream * s = detail::Stream::first(); s != nullptr; s = s->next )
  {
    while( !s->pending.empty() && ::sim::envDraw( 3 ) == 1 ) { ::sim::probe( "async-early-progress" ); s->step(); }
  }
#endif
}

class Event
{
public:
  Event() = default;
  Event( std::shared_ptr< detail::Stream > s, std::size_t id ): m_stream( s ), m_id( id ) {}
  bool check() const
  {
    simulateProgress();
    return !m_stream || m_stream->completed >= m_id;
  }
  void wait() const
  { if( m_stream ) m_stream->drainTo( m_id ); }
private:
  std::shared_ptr< detail::Stream > m_stream;
  std::size_t m_id = 0;
};

class Host
{
public:
  static Host get_default() { return Host{}; }
  Platform get_platform() const { return Platform::host; }
  Event get_event() { return Event(); }
  Event get_event_erased() { return Event(); }
  void wait() {}
  void wait_for( Event * e ) { e->wait(); }
  void memcpy( void * d, void const * s, std::size_t n ) { if( n ) std::memcpy( d, s, n ); }
  void memset( void * d, int v, std::size_t n ) { if( n ) std::memset( d, v, n ); }
};

class Cuda
{
public:
  Cuda( int = -1 ): m_stream( std::make_shared< detail::Stream >() ) {}
  static Cuda get_default() { static Cuda c; return c; }
  Platform get_platform() const { return Platform::cuda; }
  Event get_event() { return Event( m_stream, m_stream->issued ); }
  Event get_event_erased() { return get_event(); }
  void wait() { m_stream->drainTo( m_stream->issued ); }
  void wait_for( Event * e )
  {
    Event const copy = *e;
    m_stream->push( [copy] { copy.wait(); } );
  }
  detail::Stream & stream() { return *m_stream; }
private:
  std::shared_ptr< detail::Stream > m_stream;
};

class Resource
{
  struct Base
  {
    virtual ~Base() = default;
    virtual Platform get_platform() const = 0;
    virtual Event get_event() = 0;
    virtual void wait() = 0;
    virtual void wait_for( Event * e ) = 0;
    virtual void * get( std::type_index t ) = 0;
  };
  template< typename R >
  struct Model : Base
  {
    explicit Model( R && r ): m_r( r ) {}
    Platform get_platform() const override { return m_r.get_platform(); }
    Event get_event() override { return m_r.get_event(); }
    void wait() override { m_r.wait(); }
    void wait_for( Event * e ) override { m_r.wait_for( e ); }
    void * get( std::type_index t ) override { return t == std::type_index( typeid( R ) ) ? static_cast< void * >( &m_r ) : nullptr; }
    R m_r;
  };
public:
  template< typename R, typename = std::enable_if_t< !std::is_same< std::decay_t< R >, Resource >::value > >
  Resource( R && r ): m_value( std::make_shared< Model< std::decay_t< R > > >( std::decay_t< R >( r ) ) ) {}
  Resource( Resource const & ) = default;
  Resource( Resource && ) = default;
  Resource & operator=( Resource const & ) = default;
  Resource & operator=( Resource && ) = default;

  template< typename R >
  R * try_get() { return static_cast< R * >( m_value->get( std::type_index( typeid( R ) ) ) ); }
  template< typename R >
  R get() { return *try_get< R >(); }
  Platform get_platform() const { return m_value->get_platform(); }
  Event get_event() { return m_value->get_event(); }
  Event get_event_erased() { return m_value->get_event(); }
  void wait() { m_value->wait(); }
  void wait_for( Event * e ) { m_value->wait_for( e ); }
private:
  std::shared_ptr< Base > m_value;
};

} // namespace resources
} // namespace camp
