// Minimal stand-in for CHAI's ArrayManager, following the real move rules: nothing happens when the record already is
// in the space; the allocation is made on first use of a space; data is copied only if it was touched in the last
// space; a copy clears all touches.
#pragma once

#include "umpire/ResourceManager.hpp"
#include "RAJA/RAJA.hpp"

#include <functional>
#include <string>

#if defined( LVSIM )
  #include "sim.hpp"
#endif

namespace chai
{

enum ExecutionSpace
{
  NONE = 0,
  CPU,
#if defined( LVARRAY_USE_CUDA )
  GPU,
#endif
  NUM_EXECUTION_SPACES
};

enum Action { ACTION_ALLOC, ACTION_FREE, ACTION_MOVE, ACTION_CAPTURED, ACTION_FOUND_ABANDONED, ACTION_LEAKED };

struct PointerRecord;
using UserCallback = std::function< void( PointerRecord const *, Action, ExecutionSpace ) >;

struct PointerRecord
{
  void * m_pointers[ NUM_EXECUTION_SPACES ];
  std::size_t m_size;
  ExecutionSpace m_last_space;
  bool m_touched[ NUM_EXECUTION_SPACES ];
  bool m_owned[ NUM_EXECUTION_SPACES ];
  UserCallback m_user_callback;
  int m_allocators[ NUM_EXECUTION_SPACES ];

  PointerRecord():
    m_size( 0 ), m_last_space( NONE )
  {
    m_user_callback = []( PointerRecord const *, Action, ExecutionSpace ) {};
    for( int s = 0; s < NUM_EXECUTION_SPACES; ++s )
    { m_pointers[ s ] = nullptr; m_touched[ s ] = false; m_owned[ s ] = true; m_allocators[ s ] = 0; }
  }
};

class ArrayManager
{
public:
  static ArrayManager * getInstance()
  {
    static ArrayManager instance;
    static bool const hooked = hook();
    (void) hooked;
    return &instance;
  }

  int getAllocatorId( ExecutionSpace const space ) const
  { return space == CPU ? umpire::hostAllocatorId : umpire::deviceAllocatorId; }

  void setExecutionSpace( ExecutionSpace const space ) { m_space = space; }
  ExecutionSpace getExecutionSpace() const { return m_space; }

  void allocate( PointerRecord * const record, ExecutionSpace const space )
  {
    Serial guard( *this );
    record->m_last_space = space;
    record->m_pointers[ space ] = umpire::ResourceManager::getInstance().getAllocator( record->m_allocators[ space ] ).allocate( record->m_size );
    record->m_user_callback( record, ACTION_ALLOC, space );
  }

  void free( PointerRecord * const record, ExecutionSpace const freeSpace = NONE )
  {
    if( !record ) return;
    Serial guard( *this );
    for( int s = CPU; s < NUM_EXECUTION_SPACES; ++s )
    {
      if( freeSpace != NONE && freeSpace != s ) continue;
      if( record->m_pointers[ s ] && record->m_owned[ s ] )
      {
        record->m_user_callback( record, ACTION_FREE, ExecutionSpace( s ) );
        umpire::ResourceManager::getInstance().getAllocator( record->m_allocators[ s ] ).deallocate( record->m_pointers[ s ] );
        record->m_pointers[ s ] = nullptr;
      }
    }
    if( freeSpace == NONE ) delete record;
  }

  void * move( void * const pointer, PointerRecord * const record, ExecutionSpace const space )
  {
    if( space == NONE || record == nullptr ) return pointer;
    record->m_user_callback( record, ACTION_CAPTURED, space );
    if( space == record->m_last_space ) return record->m_pointers[ space ];

    void * const src = record->m_pointers[ record->m_last_space ];
    if( !record->m_pointers[ space ] ) allocateNoTouch( record, space );
    void * const dst = record->m_pointers[ space ];
    if( src != dst && record->m_touched[ record->m_last_space ] && src )
    {
#if defined( LVSIM )
      if( !::sim::addressable( src, record->m_size ) || !::sim::addressable( dst, record->m_size ) )
      { ::sim::fail( "transfer-out-of-bounds", "a transfer between the spaces covers memory outside the allocation" ); }
      ::sim::probe( "space-transfer" );
      ::sim::rawCopy( dst, src, record->m_size );
#else
      std::memcpy( dst, src, record->m_size );
#endif
      if( m_transfers - m_logFrom < maxLog ) m_log[ m_transfers - m_logFrom ] = { src, dst, record->m_size, space };
      ++m_transfers;
      record->m_user_callback( record, ACTION_MOVE, space );
      for( bool & t : record->m_touched ) t = false;
    }
    return dst;
  }

  void registerTouch( PointerRecord * const record, ExecutionSpace const space )
  { if( record && space != NONE ) { record->m_touched[ space ] = true; record->m_last_space = space; } }

  void enableCallbacks() {}
  void disableCallbacks() {}

  std::size_t transfers() const { return m_transfers; }

  /// The transfers since startLog.
  struct Transfer { void const * src; void const * dst; std::size_t bytes; ExecutionSpace to; };
  void startLog() { m_logFrom = m_transfers; }
  std::size_t logged() const { return m_transfers - m_logFrom < maxLog ? m_transfers - m_logFrom : maxLog; }
  Transfer const & logged( std::size_t const i ) const { return m_log[ i ]; }

private:
  void allocateNoTouch( PointerRecord * const record, ExecutionSpace const space )
  {
    Serial guard( *this );
    record->m_pointers[ space ] = umpire::ResourceManager::getInstance().getAllocator( record->m_allocators[ space ] ).allocate( record->m_size );
    record->m_user_callback( record, ACTION_ALLOC, space );
  }

  static bool hook()
  {
    RAJA::detail::captureHook() = []( camp::resources::Platform const p )
    {
      ExecutionSpace s = NONE;
      if( p == camp::resources::Platform::host ) s = CPU;
#if defined( LVARRAY_USE_CUDA )
      if( p == camp::resources::Platform::cuda ) s = GPU;
#endif
      getInstance()->setExecutionSpace( s );
    };
    return true;
  }

  /// chai's manager is not thread safe: overlapping calls from different threads are an error of the caller.
  struct Serial
  {
    explicit Serial( ArrayManager & m ): m_m( m )
    {
#if defined( LVSIM )
      if( m_m.m_busy && m_m.m_owner != ::sim::self() ) ::sim::fail( "unserialised-manager", "two threads use the array manager at the same time" );
      m_m.m_owner = ::sim::self();
      ++m_m.m_busy;
      ::sim::yield();
#endif
    }
    ~Serial() { --m_m.m_busy; }
    ArrayManager & m_m;
  };

  ExecutionSpace m_space = NONE;
  int m_busy = 0;
  int m_owner = -1;
  std::size_t m_transfers = 0;
  std::size_t m_logFrom = 0;
  static constexpr std::size_t maxLog = 64;
  Transfer m_log[ maxLog ];
};

template< typename T > class ManagedArray;

} // namespace chai
