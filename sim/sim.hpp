// Deterministic simulator for LvArray: public interface used by the shims and the scenarios.
// Everything here is C++14 so that it can be included next to the LvArray headers.
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

#define SIM_NOINSTR __attribute__( ( disable_sanitizer_instrumentation ) )

namespace sim
{

// ---------------------------------------------------------------- decisions
// All decisions of a run come from one PRNG seeded from VERIF_SEED and the run index. draw() records its result
// on the "op tape"; when replaying it is read from the tape (0, the simplest value, once the tape is exhausted).
std::uint32_t draw( std::uint32_t n );                       // uniform in [0, n)
inline bool chance( std::uint32_t num, std::uint32_t den )   // true with probability num/den; the simple value is false
{ return draw( den ) >= den - num; }
inline int range( int lo, int hi )                           // inclusive
{ return lo + int( draw( std::uint32_t( hi - lo + 1 ) ) ); }
bool more( std::uint32_t mean );                             // loop continuation, mean number of iterations
struct Span { Span(); ~Span(); };                            // groups the draws of one operation (for minimisation)

// ---------------------------------------------------------------- logging, oracles, statistics
void log( char const * fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
void note( char const * fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );   // printed only: not part of what a run is
[[noreturn]] void fail( char const * cls, char const * fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) );
void known( char const * key, char const * fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) );
void probe( char const * name, std::uint64_t n=1 );          // "this rare condition was hit"
void fault_fired( char const * name );                       // a fault of this kind really happened
#define SIM_CHECK( COND, CLS, ... ) do { if( !( COND ) ) ::sim::fail( CLS, __VA_ARGS__ ); } while( false )
bool verbose();

// ---------------------------------------------------------------- tracking scopes
struct NoTrack                                               // the hooks do nothing on this fiber (model code)
{ NoTrack(); ~NoTrack(); };
struct NoPreempt                                             // accesses are checked but never preempted
{ NoPreempt(); ~NoPreempt(); };

// ---------------------------------------------------------------- concurrency
int self();                                                  // the id of the running simulated thread
int liveThreads();
void parallel( int n, std::function< void( int ) > const & body ); // fork n simulated threads and join them
void yield();
int hostThreads();                                           // size of the simulated host thread team of this run

struct Mutex
{
  void lock();
  bool try_lock();
  void unlock();
  int owner = -1;
  std::uint32_t clock[ 16 ] = {};
};

void atomicPoint( void const volatile * p, std::size_t size, bool write ); // scheduling point + race bookkeeping of an atomic access

// ---------------------------------------------------------------- fail-stop
// Run f; true if the code under test stopped (error handler / abort) before f returned. All simulated threads
// started by f are abandoned in that case, as the real process would be.
bool stops( std::function< void() > const & f );
std::string const & stopOutput();                            // what was printed on std::cout up to the stop
int stopCount();
[[noreturn]] void errorStop( char const * why );             // called when the code under test aborts
int spawned();

// ---------------------------------------------------------------- simulated memory
struct HeapStats
{
  std::uint64_t blocks, bytes, mallocs, frees, mallocBlocks;
};
HeapStats heap();
void * hostAlloc( std::size_t size );                        // what malloc does in a run
void hostFree( void * p );
void * devAlloc( std::size_t size );
void devFree( void * p );
std::size_t blockSize( void const * p );                     // 0 if p is not the start of a live block
bool isDevice( void const * p );
bool isHostHeap( void const * p );
bool addressable( void const * p, std::size_t size );
void forbid( void const * p, std::size_t size );             // part of a live block that nothing may access for now
void allow( void const * p, std::size_t size );
void scramble( void * p, std::size_t size );                 // fill with seeded garbage
void rawCopy( void * dst, void const * src, std::size_t size ); // what DMA does: any space, no checks
void failNextMalloc( int countdown );                        // the countdown-th malloc from now fails (1 = the next)
void mallocFailPolicy( std::uint32_t permille );             // each malloc fails with this probability
void setMallocLimit( std::size_t bytes );                    // each larger malloc fails
std::uint64_t mallocFailures();                              // how many malloc calls of this run returned null
struct DeviceScope { DeviceScope(); ~DeviceScope(); };       // code in this scope runs on the simulated device
bool onDevice();

// ---------------------------------------------------------------- fault decisions (fault tape)
// Decide whether the fault `kind` fires at this point; recorded so that a replay fires exactly the same ones.
bool faultPoint( char const * kind, std::uint32_t permille );
std::uint32_t faultValue( std::uint32_t n );                 // a parameter of a fault, recorded too
void setFaultsEnabled( bool );
bool faultsEnabled();
std::uint32_t envDraw( std::uint32_t n );                    // environment decision (kernel order, async progress), recorded on the fault tape

// ---------------------------------------------------------------- element life times (Tracked values)
void lifeConstruct( void const * p, std::size_t size, char const * how );
bool lifeDestroy( void const * p, std::size_t size );        // false: the slot was relocated while dead, nothing to destroy
bool lifeIsLive( void const * p );
/// A dead slot of one heap block is moved to the same offset of another block (a whole-buffer relocation over a gap):
/// both stay dead and the destruction of the source is ignored. False if this is not such a move.
bool lifeRelocate( void const * dst, void const * src, std::size_t size, bool report );
std::uint64_t lifeCount();

// the time unit of the simulation
std::uint64_t steps();

// real (uninstrumented) output text of std::cout since the last call
std::string takeOutput();

} // namespace sim

/// Implemented by each scenario: one simulated run.
void scenario();
/// Called once in the parent process before any run (warm up of static state).
void scenarioWarmup();
