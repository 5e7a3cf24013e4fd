// Deterministic simulator runtime. Compiled WITHOUT sanitizer instrumentation. It provides the __tsan_* entry points
// that instrumented code (the scenarios and the LvArray headers) calls at every memory access, and decides from one
// PRNG which simulated thread runs next, how the heap behaves and which faults fire.
#include "sim.hpp"

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <new>
#include <algorithm>
#include <vector>
#include <string>
#include <iostream>
#include <sstream>
#include <fstream>
#include <unordered_set>
#include <map>
#include <cxxabi.h>
#include <pthread.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <execinfo.h>

extern "C" {
void * __real_malloc( size_t );
void * __real_calloc( size_t, size_t );
void * __real_realloc( void *, size_t );
void __real_free( void * );
int __real_pthread_mutex_lock( pthread_mutex_t * );
int __real_pthread_mutex_unlock( pthread_mutex_t * );
int __real_pthread_mutex_trylock( pthread_mutex_t * );
void __real_abort() __attribute__( ( noreturn ) );
extern char __data_start;
extern char _end;
}

namespace
{

using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// ------------------------------------------------------------------------------------------------ constants
constexpr uintptr_t HOST_LO = 0x100000000000ULL;
constexpr size_t ARENA = 64ULL << 20;
constexpr uintptr_t DEV_LO = HOST_LO + ARENA;
constexpr uintptr_t STACK_LO = 0x110000000000ULL;
constexpr int MAXF = 15;
constexpr size_t STACK_SZ = 512 << 10;
constexpr size_t STACKS = MAXF * STACK_SZ;
constexpr uintptr_t ADDR_SHADOW = 0x120000000000ULL;      // 1 byte per byte of host + device arena
constexpr uintptr_t RACE_SHADOW_A = 0x130000000000ULL;    // 8 bytes per byte of the arenas
constexpr uintptr_t RACE_SHADOW_S = 0x140000000000ULL;    // 8 bytes per byte of the stacks
constexpr uintptr_t RACE_SHADOW_G = 0x150000000000ULL;    // 8 bytes per byte of the globals
constexpr uintptr_t LIFE_SHADOW = 0x160000000000ULL;      // 1 byte per 8 bytes of the arenas

constexpr u64 STEP_CAP_DEFAULT = 12000000;
constexpr u64 SOFT_STEPS = 600000;

inline u64 mix( u64 x )
{
  x += 0x9e3779b97f4a7c15ULL;
  x = ( x ^ ( x >> 30 ) ) * 0xbf58476d1ce4e5b9ULL;
  x = ( x ^ ( x >> 27 ) ) * 0x94d049bb133111ebULL;
  return x ^ ( x >> 31 );
}

struct Rng
{
  u64 s;
  u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ULL; z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebULL; return z ^ ( z >> 31 ); }
  u32 below( u32 n ) { return n <= 1 ? 0 : u32( ( ( next() >> 32 ) * n ) >> 32 ); }
};

// ------------------------------------------------------------------------------------------------ shared result
struct SchedEntry { u32 step; u8 fiber; u8 target; u8 forced; u8 pad; };
struct FaultEntry { u32 kind; u32 ordinal; };
struct Counter { char name[ 56 ]; u64 n; };

constexpr int OPS_MAX = 1 << 15, SPAN_MAX = 1 << 13, SCHED_MAX = 1 << 16, FAULT_MAX = 4096, ENV_MAX = 1 << 15, CNT_MAX = 256;
constexpr size_t LOG_MAX = 1 << 18;

enum Status : int { st_running = 0, st_ok = 1, st_violation = 2, st_internal = 3 };

struct Shared
{
  int status;
  char cls[ 96 ];
  char msg[ 3072 ];
  u64 hash, schedHash, steps, switches, spawned, heapTop;
  u32 nontrivial;
  u32 nops, nspans, nsched, nfault, nenv, ncnt, nknown;
  size_t loglen;
  Counter cnt[ CNT_MAX ];
  char known[ 8 ][ 400 ];
  u32 ops[ OPS_MAX ];
  u32 spanBegin[ SPAN_MAX ], spanEnd[ SPAN_MAX ];
  SchedEntry sched[ SCHED_MAX ];
  FaultEntry fault[ FAULT_MAX ];
  u32 env[ ENV_MAX ];
  char log[ LOG_MAX ];
};

Shared * R;

struct Input                                                 // the tapes of a replay
{
  std::vector< u32 > ops, env;
  std::vector< SchedEntry > sched;
  std::vector< FaultEntry > fault;
};

// ------------------------------------------------------------------------------------------------ run state
struct VC { u32 c[ 16 ]; };

struct Fiber
{
  void * sp;
  void * ehCaught; unsigned ehUncaught;
  u32 mxcsr; unsigned short fpucw;
  int state;                                                 // 0 free, 1 runnable, 2 blocked, 3 finished
  int noTrack, noPreempt, device;
  int waitKind;                                              // 1 join, 2 mutex
  int pendingChildren;
  int parent;
  int stopGroup;
  void * waitMutex;
  u64 localStep;
  int prio;
  std::function< void() > * fn;
  VC vc;
};

struct StopGroup { int parentGroup; int waiter; bool stopped; };

Fiber F[ MAXF + 1 ];
StopGroup G[ 512 ];
int nGroups = 0;
int cur = 0;
int nLive = 0;
bool inRun = false;
bool g_verbose = false;
char const * g_known = "";                                    // keys of the listed findings, comma separated
u64 g_seed = 0, g_run = 0;
Rng rOps, rSched, rEnv, rHeap, rFault;

bool replaying = false;
Input const * in = nullptr;
size_t opPos = 0, envPos = 0;
size_t schedPos[ MAXF + 1 ];
std::vector< SchedEntry > * schedByFiber = nullptr;          // built before the fork

u64 stepCap = STEP_CAP_DEFAULT;
u64 nSteps = 0;
int schedMode = 0;                                           // 0 none, 1 random, 2 atomic focused, 3 PCT
u32 meanRun = 10;
u64 countdown = 0;
u64 pctPoints[ 8 ]; int nPct = 0; int pctLow = 0;
int teamSize = 3;
std::string * g_stopOut = nullptr;
int g_stopCount = 0;

// heap
struct Block { u32 size; u8 state; u8 tag; u8 dev; u8 pad; };  // state 1 live 2 freed
enum Tag : u8 { tag_new = 1, tag_malloc = 2, tag_dev = 3 };
uintptr_t hostTop, devTop;
u64 liveBlocks = 0, liveBytes = 0, nMallocs = 0, nFrees = 0, liveMalloc = 0;
int heapReuse = 0;                                           // 0 never, 1 LIFO, 2 random
int heapFill = 0;                                            // 0 zero 1 0xFF 2 garbage 3 keep stale
int freeFill = 0;                                            // 0 keep 1 garbage 2 0xDD
u32 mallocFailPm = 0;
int mallocFailCountdown = 0;
u64 mallocNulls = 0;
size_t mallocLimit = size_t( 1 ) << 24;
bool faultsOn = false;
constexpr int NCLASS = 2048;
uintptr_t freeLists[ 2 ][ NCLASS ];                           // heads, chained through a side table

struct FaultKind { u32 hash; u32 ordinal; };
FaultKind fkinds[ 64 ]; int nFk = 0;
std::unordered_set< u64 > * faultSet = nullptr;

// cout capture
struct CaptureBuf : std::streambuf
{
  char buf[ 1 << 16 ]; size_t n = 0;
  int overflow( int c ) override { if( c != EOF && n < sizeof( buf ) - 1 ) buf[ n++ ] = char( c ); return c == EOF ? 0 : c; }
  std::streamsize xsputn( char const * s, std::streamsize k ) override
  { size_t m = std::min( size_t( k ), sizeof( buf ) - 1 - n ); std::memcpy( buf + n, s, m ); n += m; return k; }
} capture;

// ------------------------------------------------------------------------------------------------ helpers
inline void hashMix( u64 v ) { R->hash = mix( R->hash ^ v ); }

u64 hashStr( char const * s, size_t n ) { u64 h = 1469598103934665603ULL; for( size_t i = 0; i < n; ++i ) { h ^= u8( s[ i ] ); h *= 1099511628211ULL; } return h; }

[[noreturn]] void finish( int status )
{
  R->status = status;
  R->steps = nSteps;
  R->heapTop = std::max( hostTop - HOST_LO, devTop - DEV_LO );
  _exit( status == st_ok ? 0 : 9 );
}

void appendLog( char const * s, size_t n )
{
  if( !g_verbose ) return;
  if( R->loglen + n + 2 >= LOG_MAX ) return;
  std::memcpy( R->log + R->loglen, s, n );
  R->loglen += n;
  R->log[ R->loglen++ ] = '\n';
  R->log[ R->loglen ] = 0;
}

[[noreturn]] void failMsg( char const * cls, char const * msg )
{
  if( R->status == st_running )
  {
    std::snprintf( R->cls, sizeof( R->cls ), "%s", cls );
    std::snprintf( R->msg, sizeof( R->msg ), "%s", msg );
    char line[ 400 ];
    int k = std::snprintf( line, sizeof( line ), "VIOLATION %s: %.300s", cls, msg );
    appendLog( line, size_t( std::min( k, int( sizeof( line ) ) - 1 ) ) );
  }
  finish( st_violation );
}

[[noreturn]] void internalError( char const * msg )
{
  std::snprintf( R->cls, sizeof( R->cls ), "internal" );
  std::snprintf( R->msg, sizeof( R->msg ), "%s", msg );
  finish( st_internal );
}

// ------------------------------------------------------------------------------------------------ fibers
extern "C" void sim_switch( void * * saveSp, void * newSp );
asm( R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  .cfi_startproc
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
  .cfi_endproc
.size sim_switch,.-sim_switch
.globl sim_fiber_entry
.type sim_fiber_entry,@function
sim_fiber_entry:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp, %ebp
  call sim_fiber_main
  ud2
  .cfi_endproc
.size sim_fiber_entry,.-sim_fiber_entry
)" );
extern "C" void sim_fiber_entry();

struct EhGlobals { void * caught; unsigned uncaught; };

void switchTo( int t )
{
  int const from = cur;
  if( t == from ) return;
  EhGlobals * eh = reinterpret_cast< EhGlobals * >( abi::__cxa_get_globals() );
  F[ from ].ehCaught = eh->caught; F[ from ].ehUncaught = eh->uncaught;
  asm volatile ( "stmxcsr %0" : "=m" ( F[ from ].mxcsr ) );
  asm volatile ( "fnstcw %0" : "=m" ( F[ from ].fpucw ) );
  R->switches++;
  hashMix( u64( from ) << 40 ^ u64( t ) << 32 ^ F[ from ].localStep );
  R->schedHash = mix( R->schedHash ^ ( u64( from ) << 40 ^ u64( t ) << 32 ^ F[ from ].localStep ) );
  cur = t;
  eh->caught = F[ t ].ehCaught; eh->uncaught = F[ t ].ehUncaught;
  asm volatile ( "ldmxcsr %0" : : "m" ( F[ t ].mxcsr ) );
  asm volatile ( "fldcw %0" : : "m" ( F[ t ].fpucw ) );
  sim_switch( &F[ from ].sp, F[ t ].sp );
}

[[noreturn]] void hang();

void recordSched( int fiber, u64 step, int target, bool forced )
{
  if( R->nsched >= SCHED_MAX ) hang();                        // far beyond the switches of any run that ends
  R->sched[ R->nsched++ ] = SchedEntry{ u32( step ), u8( fiber ), u8( target ), u8( forced ), 0 };
}

int runnableList( int * out, int except )
{
  int n = 0;
  for( int i = 0; i < MAXF; ++i ) if( F[ i ].state == 1 && i != except ) out[ n++ ] = i;
  return n;
}

u64 newCountdown()
{
  // geometric with the given mean
  if( meanRun <= 1 ) return 1;
  u64 c = 1;
  u32 m = meanRun;
  // cheap approximation: uniform in [1, 2m)
  c = 1 + rSched.below( 2 * m - 1 );
  return c;
}

int replayTarget( bool forced )
{
  auto & v = schedByFiber[ cur ];
  size_t & p = schedPos[ cur ];
  u64 const s = F[ cur ].localStep;
  while( p < v.size() && ( v[ p ].step < s || ( v[ p ].step == s && v[ p ].forced != u8( forced ) && !forced ) ) ) ++p;
  if( forced )
  { // forced entries of this step come after a preemption entry at the same step
    while( p < v.size() && v[ p ].step == s && !v[ p ].forced ) ++p;
  }
  if( p < v.size() && v[ p ].step == s && bool( v[ p ].forced ) == forced ) return v[ p++ ].target;
  return -1;
}

// the current fiber cannot continue: choose another one
void forcedSwitch()
{
  int list[ MAXF ];
  int const n = runnableList( list, cur );
  if( n == 0 )
  {
    failMsg( "deadlock", "no simulated thread can run" );
  }
  int t = -1;
  F[ cur ].localStep++;
  if( replaying )
  {
    t = replayTarget( true );
    if( t < 0 || t >= MAXF || F[ t ].state != 1 ) t = list[ 0 ];
  }
  else if( schedMode == 3 )
  {
    t = list[ 0 ];
    for( int i = 1; i < n; ++i ) if( F[ list[ i ] ].prio > F[ t ].prio ) t = list[ i ];
  }
  else
  {
    t = list[ rSched.below( u32( n ) ) ];
  }
  recordSched( cur, F[ cur ].localStep, t, true );
  countdown = newCountdown();
  switchTo( t );
}

inline void schedPoint( bool strong )
{
  Fiber & f = F[ cur ];
  if( nLive <= 1 || f.noPreempt || f.noTrack ) return;
  f.localStep++;
  int t = -1;
  if( replaying )
  {
    t = replayTarget( false );
    if( t < 0 || t >= MAXF || F[ t ].state != 1 || t == cur ) return;
  }
  else
  {
    // enough schedule for one run: only the switches that cannot be avoided from here on
    if( R->nsched >= SCHED_MAX / 4 * 3 ) return;
    int list[ MAXF ];
    if( schedMode == 1 )
    {
      if( countdown > 1 ) { --countdown; return; }
      countdown = newCountdown();
    }
    else if( schedMode == 2 )
    {
      if( strong ) { if( rSched.below( 2 ) ) return; }
      else { if( rSched.below( 400 ) ) return; }
    }
    else if( schedMode == 3 )
    {
      bool hit = false;
      for( int i = 0; i < nPct; ++i ) if( pctPoints[ i ] == nSteps ) hit = true;
      if( hit ) { F[ cur ].prio = --pctLow; }
      int const n = runnableList( list, -1 );
      int b = cur;
      for( int i = 0; i < n; ++i ) if( F[ list[ i ] ].prio > F[ b ].prio ) b = list[ i ];
      if( b == cur ) return;
      recordSched( cur, f.localStep, b, false );
      switchTo( b );
      return;
    }
    else return;
    int const n = runnableList( list, cur );
    if( n == 0 ) return;
    t = list[ rSched.below( u32( n ) ) ];
  }
  recordSched( cur, f.localStep, t, false );
  switchTo( t );
}

// ------------------------------------------------------------------------------------------------ vector clocks and races
inline void vcJoin( VC & a, u32 const * b ) { for( int i = 0; i < MAXF; ++i ) if( b[ i ] > a.c[ i ] ) a.c[ i ] = b[ i ]; }

constexpr u32 CLK_MASK = ( 1u << 27 ) - 1;
constexpr u32 ATOM = 1u << 27;

struct Shadow { u32 w, r; };
struct SharedRead { u32 c[ 16 ]; u32 atomicOnly; };
SharedRead sharedReads[ 1 << 14 ];
u32 nSharedReads = 0;

inline Shadow * raceShadow( uintptr_t a )
{
  if( a - HOST_LO < 2 * ARENA ) return reinterpret_cast< Shadow * >( RACE_SHADOW_A ) + ( a - HOST_LO );
  if( a - STACK_LO < STACKS ) return reinterpret_cast< Shadow * >( RACE_SHADOW_S ) + ( a - STACK_LO );
  uintptr_t const g = uintptr_t( &__data_start );
  if( a - g < uintptr_t( &_end ) - g ) return reinterpret_cast< Shadow * >( RACE_SHADOW_G ) + ( a - g );
  return nullptr;
}

[[noreturn]] void reportRace( uintptr_t a, size_t size, bool write, int other, char const * otherKind, void * pc )
{
  char msg[ 400 ];
  char const * where = ( a - DEV_LO < ARENA ) ? "device heap" : ( a - HOST_LO < ARENA ) ? "host heap" : ( a - STACK_LO < STACKS ) ? "stack" : "global";
  std::snprintf( msg, sizeof( msg ), "unsynchronised %s of %zu bytes in %s memory by simulated thread %d conflicts with a %s by thread %d [pc %p]",
                 write ? "write" : "read", size, where, cur, otherKind, other, pc );
  failMsg( "data-race", msg );
}

void raceAccess( uintptr_t a, size_t size, bool write, bool atomic, void * pc )
{
  Shadow * s = raceShadow( a );
  if( !s ) return;
  Fiber & f = F[ cur ];
  u32 const epoch = ( u32( cur ) << 28 ) | ( atomic ? ATOM : 0 ) | f.vc.c[ cur ];
  for( size_t i = 0; i < size; ++i )
  {
    Shadow & x = s[ i ];
    if( x.w )
    {
      int const t = int( x.w >> 28 );
      if( t != cur && !( atomic && ( x.w & ATOM ) ) && ( x.w & CLK_MASK ) > f.vc.c[ t ] ) reportRace( a + i, size, write, t, "write", pc );
    }
    if( write )
    {
      if( x.r )
      {
        if( ( x.r >> 28 ) == 15 )
        {
          SharedRead & sr = sharedReads[ x.r & 0xFFFF ];
          for( int t = 0; t < MAXF; ++t )
            if( t != cur && ( sr.c[ t ] & CLK_MASK ) > f.vc.c[ t ] && !( atomic && ( sr.c[ t ] & ATOM ) ) ) reportRace( a + i, size, write, t, "read", pc );
        }
        else
        {
          int const t = int( x.r >> 28 );
          if( t != cur && !( atomic && ( x.r & ATOM ) ) && ( x.r & CLK_MASK ) > f.vc.c[ t ] ) reportRace( a + i, size, write, t, "read", pc );
        }
      }
      x.w = epoch; x.r = 0;
    }
    else
    {
      if( x.r == 0 ) x.r = epoch;
      else if( ( x.r >> 28 ) == 15 ) sharedReads[ x.r & 0xFFFF ].c[ cur ] = epoch & ( ATOM | CLK_MASK );
      else
      {
        int const t = int( x.r >> 28 );
        if( t == cur || ( x.r & CLK_MASK ) <= f.vc.c[ t ] ) x.r = epoch;
        else
        {
          if( nSharedReads >= ( 1u << 14 ) ) { x.r = epoch; continue; }
          SharedRead & sr = sharedReads[ nSharedReads ];
          std::memset( &sr, 0, sizeof( sr ) );
          sr.c[ t ] = x.r & ( ATOM | CLK_MASK );
          sr.c[ cur ] = epoch & ( ATOM | CLK_MASK );
          x.r = 0xF0000000u | nSharedReads++;
        }
      }
    }
  }
}

void raceForget( uintptr_t a, size_t size )
{
  if( R->spawned == 0 ) return;
  Shadow * s = raceShadow( a );
  if( s ) std::memset( s, 0, size * sizeof( Shadow ) );
}

// synchronisation variables of C++ atomics
struct SyncVar { uintptr_t a; u32 c[ 16 ]; };
SyncVar syncVars[ 4096 ];
SyncVar * syncVar( uintptr_t a )
{
  size_t h = mix( a ) & 4095;
  for( int i = 0; i < 4096; ++i, h = ( h + 1 ) & 4095 )
  {
    if( syncVars[ h ].a == a ) return &syncVars[ h ];
    if( syncVars[ h ].a == 0 ) { syncVars[ h ].a = a; return &syncVars[ h ]; }
  }
  internalError( "too many atomics" );
}

// ------------------------------------------------------------------------------------------------ address checks
inline u8 * addrShadow( uintptr_t a ) { return reinterpret_cast< u8 * >( ADDR_SHADOW ) + ( a - HOST_LO ); }

[[noreturn]] void badAccess( uintptr_t a, size_t size, bool write, void * pc )
{
  u8 * s = addrShadow( a );
  size_t i = 0;
  while( i < size && s[ i ] == 1 ) ++i;
  char msg[ 400 ];
  // find the nearest block start below for the report
  uintptr_t b = a + i;
  char const * what = s[ i ] == 2 ? "freed memory" : s[ i ] == 4 ? "memory that holds none of the container's values" : "memory outside any allocation";
  long dist = -1; u32 bsize = 0;
  for( uintptr_t q = ( b & ~uintptr_t( 15 ) ); q >= HOST_LO + 16 && b - q < 4096; q -= 16 )
  {
    if( addrShadow( q )[ 0 ] != 0 && addrShadow( q - 1 )[ 0 ] == 0 )
    { Block * blk = reinterpret_cast< Block * >( q - 16 ); dist = long( b - q ); bsize = blk->size; break; }
  }
  std::snprintf( msg, sizeof( msg ), "%s of %zu bytes touches %s (offset %ld of a %u byte block) by simulated thread %d [pc %p]",
                 write ? "write" : "read", size, what, dist, bsize, cur, pc );
  failMsg( s[ i ] == 2 ? "use-after-free" : ( write ? "out-of-bounds-write" : "out-of-bounds-read" ), msg );
}

[[noreturn]] void hang()
{
  char msg[ 200 ];
  std::snprintf( msg, sizeof( msg ), "the run did not end within %llu steps", (unsigned long long) stepCap );
  failMsg( "hang", msg );
}

inline void access( void * p, size_t size, bool write, void * pc )
{
  if( !inRun ) return;
  Fiber & f = F[ cur ];
  if( f.noTrack ) return;
  uintptr_t const a = uintptr_t( p );
  if( a - HOST_LO < 2 * ARENA )
  {
    if( ++nSteps > stepCap ) hang();
    schedPoint( false );
    u8 const * s = addrShadow( a );
    bool ok;
    if( size == 8 ) { u64 v; std::memcpy( &v, s, 8 ); ok = v == 0x0101010101010101ULL; }
    else if( size == 4 ) { u32 v; std::memcpy( &v, s, 4 ); ok = v == 0x01010101u; }
    else { ok = true; for( size_t i = 0; i < size; ++i ) if( s[ i ] != 1 ) { ok = false; break; } }
    if( !ok ) badAccess( a, size, write, pc );
    bool const dev = a >= DEV_LO;
    if( dev != bool( f.device ) )
    {
      char msg[ 300 ];
      std::snprintf( msg, sizeof( msg ), "%s of %zu bytes of %s memory by code running on the %s [pc %p]", write ? "write" : "read", size,
                     dev ? "device" : "host", dev ? "host" : "device", pc );
      failMsg( "wrong-space-access", msg );
    }
    if( R->spawned && nLive > 1 ) raceAccess( a, size, write, false, pc );
    return;
  }
  if( nLive <= 1 ) { if( ++nSteps > stepCap ) hang(); return; }
  if( a - STACK_LO < STACKS )
  {
    if( ( a - STACK_LO ) / STACK_SZ == size_t( cur ) ) return;
    if( ++nSteps > stepCap ) hang();
    schedPoint( false );
    raceAccess( a, size, write, false, pc );
    return;
  }
  uintptr_t const g = uintptr_t( &__data_start );
  if( a - g < uintptr_t( &_end ) - g )
  {
    if( ++nSteps > stepCap ) hang();
    schedPoint( false );
    raceAccess( a, size, write, false, pc );
  }
}

void rangeAccess( void const * p, size_t n, bool write, void * pc )
{
  if( n == 0 || !inRun || F[ cur ].noTrack ) return;
  access( const_cast< void * >( p ), n, write, pc );
}

// ------------------------------------------------------------------------------------------------ heap
inline size_t roundUp( size_t n ) { return ( n + 15 ) & ~size_t( 15 ); }

void fillMem( void * p, size_t n, int kind )
{
  if( n == 0 ) return;
  switch( kind )
  {
    case 0: std::memset( p, 0, n ); break;
    case 1: std::memset( p, 0xFF, n ); break;
    case 2:
    {
      u64 v = rHeap.next();
      u8 * b = static_cast< u8 * >( p );
      for( size_t i = 0; i < n; ++i ) { if( ( i & 7 ) == 0 ) v = mix( v + i ); b[ i ] = u8( v >> ( 8 * ( i & 7 ) ) ); }
      break;
    }
    case 4: std::memset( p, 0xDD, n ); break;
    default: break;
  }
}

// side table of free list links: stored in the header's 8 spare bytes
struct Header { u32 size; u8 state; u8 tag; u8 dev; u8 magic; u64 next; };
static_assert( sizeof( Header ) == 16, "" );
inline Header * headerOf( void const * p ) { return reinterpret_cast< Header * >( uintptr_t( p ) - 16 ); }

struct LifeSlot { uintptr_t a; };                             // live elements outside the heap, by address
LifeSlot lifeTab[ 1 << 14 ];
u64 lifeLive = 0;
u8 * lifeShadow( uintptr_t a ) { return reinterpret_cast< u8 * >( LIFE_SHADOW ) + ( ( a - HOST_LO ) >> 3 ); }

void * arenaAlloc( size_t size, u8 tag )
{
  bool const dev = tag == tag_dev;
  if( size > ( size_t( 1 ) << 24 ) ) return nullptr;
  size_t const body = roundUp( size == 0 ? 1 : size );
  size_t const cls = body / 16;
  uintptr_t p = 0;
  if( heapReuse && cls < NCLASS && freeLists[ dev ][ cls ] )
  {
    if( heapReuse == 1 || rHeap.below( 2 ) )
    {
      p = freeLists[ dev ][ cls ];
      freeLists[ dev ][ cls ] = headerOf( reinterpret_cast< void * >( p ) )->next;
    }
  }
  bool fresh = false;
  if( !p )
  {
    uintptr_t & top = dev ? devTop : hostTop;
    uintptr_t const lim = dev ? DEV_LO + ARENA : HOST_LO + ARENA;
    if( top + 16 + body + 48 > lim )
    {
      failMsg( "memory-exhausted", "the run allocated more simulated memory than the arena holds" );
    }
    p = top + 32;
    top = p + body + 16;
    fresh = true;
  }
  Header * h = headerOf( reinterpret_cast< void * >( p ) );
  h->size = u32( size ); h->state = 1; h->tag = tag; h->dev = dev; h->magic = 0xA7; h->next = 0;
  std::memset( addrShadow( p ), 0, body );
  std::memset( addrShadow( p ), 1, size );
  std::memset( lifeShadow( p ), 0, ( size + 7 ) / 8 );
  raceForget( p, body );
  if( fresh ? ( heapFill != 0 && heapFill != 3 ) : heapFill != 3 ) fillMem( reinterpret_cast< void * >( p ), size, heapFill );
  if( dev || tag == tag_malloc ) { if( heapFill == 3 && fresh ) fillMem( reinterpret_cast< void * >( p ), size, 2 ); }
  ++liveBlocks; liveBytes += size;
  if( tag == tag_malloc ) { ++liveMalloc; ++nMallocs; }
  if( tag != tag_new ) hashMix( size * 7 + tag );
  return reinterpret_cast< void * >( p );
}


void arenaFree( void * ptr, u8 tag, void * pc )
{
  uintptr_t const p = uintptr_t( ptr );
  char msg[ 300 ];
  Header * h = headerOf( ptr );
  bool const start = ( p & 15 ) == 0 && p >= HOST_LO + 32 && h->magic == 0xA7 && addrShadow( p - 1 )[ 0 ] == 0;
  if( start && h->state == 2 )
  {
    std::snprintf( msg, sizeof( msg ), "a block of %u bytes is freed a second time [pc %p]", h->size, pc );
    failMsg( "double-free", msg );
  }
  if( !start || h->state != 1 )
  {
    std::snprintf( msg, sizeof( msg ), "free of a pointer that is not the start of a live block [pc %p]", pc );
    failMsg( "bad-free", msg );
  }
  if( h->tag != tag )
  {
    std::snprintf( msg, sizeof( msg ), "a block allocated with %s is released with %s [pc %p]", h->tag == tag_new ? "new" : h->tag == tag_malloc ? "malloc" : "the device allocator",
                   tag == tag_new ? "delete" : tag == tag_malloc ? "free" : "the device allocator", pc );
    failMsg( "bad-free", msg );
  }
  if( !F[ cur ].noTrack && nLive > 1 ) raceAccess( p, h->size, true, false, pc );
  if( tag == tag_malloc )
  {
    u8 * l = lifeShadow( p );
    for( size_t i = 0; i < ( h->size + 7 ) / 8; ++i )
      if( l[ i ] == 1 )
      {
        std::snprintf( msg, sizeof( msg ), "a buffer of %u bytes is released while the element at byte %zu is still alive [pc %p]", h->size, i * 8, pc );
        failMsg( "element-not-destroyed", msg );
      }
  }
  h->state = 2;
  --liveBlocks; liveBytes -= h->size; ++nFrees;
  if( tag == tag_malloc ) --liveMalloc;
  std::memset( addrShadow( p ), 2, std::max< size_t >( h->size, 1 ) );
  if( freeFill ) fillMem( ptr, h->size, freeFill == 1 ? 2 : 4 );
  size_t const cls = roundUp( h->size == 0 ? 1 : h->size ) / 16;
  if( heapReuse && cls < NCLASS ) { h->next = freeLists[ h->dev ][ cls ]; freeLists[ h->dev ][ cls ] = p; }
}

inline bool inArena( void const * p ) { return uintptr_t( p ) - HOST_LO < 2 * ARENA; }

void initialRegs( Fiber & f )
{
  asm volatile ( "stmxcsr %0" : "=m" ( f.mxcsr ) );
  asm volatile ( "fnstcw %0" : "=m" ( f.fpucw ) );
}

void prepareStack( int id )
{
  uintptr_t top = STACK_LO + ( size_t( id ) + 1 ) * STACK_SZ - 64;
  top &= ~uintptr_t( 15 );
  void * * s = reinterpret_cast< void * * >( top );
  *--s = nullptr;
  *--s = nullptr;
  *--s = reinterpret_cast< void * >( &sim_fiber_entry );
  for( int i = 0; i < 6; ++i ) *--s = nullptr;
  F[ id ].sp = s;
}

int spawnFiber( std::function< void() > * fn, int parent, int group )
{
  int id = -1;
  for( int i = 1; i < MAXF; ++i ) if( F[ i ].state == 0 ) { id = i; break; }
  if( id < 0 ) internalError( "too many simulated threads" );
  Fiber & f = F[ id ];
  u64 const ls = f.localStep;
  VC const old = f.vc;
  f.state = 1; f.noTrack = 0; f.noPreempt = F[ parent ].noPreempt; f.device = F[ parent ].device; f.waitKind = 0;
  f.pendingChildren = 0; f.parent = parent; f.stopGroup = group; f.waitMutex = nullptr; f.fn = fn;
  f.localStep = ls;
  f.ehCaught = nullptr; f.ehUncaught = 0;
  initialRegs( f );
  f.prio = int( rSched.below( 1000000 ) ) + 1;
  f.vc = old;
  vcJoin( f.vc, F[ parent ].vc.c );
  f.vc.c[ id ]++;
  F[ parent ].vc.c[ parent ]++;
  prepareStack( id );
  ++nLive;
  R->spawned++;
  return id;
}

bool groupWithin( int g, int anc ) { while( g >= 0 ) { if( g == anc ) return true; g = G[ g ].parentGroup; } return false; }

} // namespace

extern "C" void sim_fiber_main()
{
  int const id = cur;
  ( *F[ id ].fn )();
  // finished
  Fiber & f = F[ id ];
  if( id == 0 )
  {
    finish( st_ok );
  }
  Fiber & p = F[ f.parent ];
  vcJoin( p.vc, f.vc.c );
  f.vc.c[ id ]++;
  f.state = 0;
  --nLive;
  if( --p.pendingChildren == 0 && p.state == 2 && p.waitKind == 1 ) { p.state = 1; p.waitKind = 0; }
  forcedSwitch();
  __builtin_trap();
}

namespace sim
{

// ------------------------------------------------------------------------------------------------ decisions
std::uint32_t draw( std::uint32_t n )
{
  u32 v;
  if( replaying )
  {
    v = opPos < in->ops.size() ? in->ops[ opPos ] : 0;
    ++opPos;
    if( n ) v = v >= n ? v % n : v; else v = 0;
  }
  else v = rOps.below( n );
  if( R->nops >= OPS_MAX ) internalError( "op tape full" );
  R->ops[ R->nops++ ] = v;
  return v;
}

/// A history ends early when it has become expensive, far below the limits at which a run is given up.
bool more( std::uint32_t mean )
{
  bool const r = draw( mean + 1 ) != 0;
  return r && nSteps < SOFT_STEPS && hostTop - HOST_LO < ARENA / 2 && devTop - DEV_LO < ARENA / 2 && R->nops < OPS_MAX / 2 && nGroups < 400;
}

Span::Span()
{ if( R->nspans < SPAN_MAX ) { R->spanBegin[ R->nspans ] = R->nops; R->spanEnd[ R->nspans ] = 0; ++R->nspans; } }
Span::~Span()
{ for( int i = int( R->nspans ) - 1; i >= 0; --i ) if( R->spanEnd[ i ] == 0 ) { R->spanEnd[ i ] = R->nops; break; } }

std::uint32_t envDraw( std::uint32_t n )
{
  u32 v;
  if( replaying ) { v = envPos < in->env.size() ? in->env[ envPos ] : 0; ++envPos; if( n ) v = v >= n ? v % n : v; else v = 0; }
  else v = rEnv.below( n );
  if( R->nenv >= ENV_MAX ) hang();                            // far beyond what any run that ends asks of its environment
  R->env[ R->nenv++ ] = v;
  return v;
}
std::uint32_t faultValue( std::uint32_t n ) { return envDraw( n ); }

bool faultPoint( char const * kind, std::uint32_t permille )
{
  if( !faultsOn ) return false;
  u32 const kh = u32( hashStr( kind, std::strlen( kind ) ) );
  FaultKind * k = nullptr;
  for( int i = 0; i < nFk; ++i ) if( fkinds[ i ].hash == kh ) k = &fkinds[ i ];
  if( !k ) { if( nFk >= 64 ) internalError( "too many fault kinds" ); k = &fkinds[ nFk++ ]; k->hash = kh; k->ordinal = 0; }
  u32 const ord = k->ordinal++;
  bool fire;
  if( replaying ) fire = faultSet->count( u64( kh ) << 32 | ord ) != 0;
  else fire = rFault.below( 1000 ) < permille;
  if( fire )
  {
    if( R->nfault >= FAULT_MAX ) return false;               // faults stop eventually: what follows must end by itself
    R->fault[ R->nfault++ ] = FaultEntry{ kh, ord };
    fault_fired( kind );
    log( "  fault %s #%u", kind, ord );
  }
  return fire;
}
void setFaultsEnabled( bool b ) { faultsOn = b; }
bool faultsEnabled() { return faultsOn; }

// ------------------------------------------------------------------------------------------------ logging
bool verbose() { return g_verbose; }

void log( char const * fmt, ... )
{
  char buf[ 1024 ];
  va_list ap; va_start( ap, fmt );
  int k = std::vsnprintf( buf, sizeof( buf ), fmt, ap );
  va_end( ap );
  if( k < 0 ) k = 0;
  if( k >= int( sizeof( buf ) ) ) k = int( sizeof( buf ) ) - 1;
  hashMix( hashStr( buf, size_t( k ) ) );
  if( g_verbose )
  {
    char line[ 1100 ];
    int m = std::snprintf( line, sizeof( line ), "[%llu t%d] %s", (unsigned long long) nSteps, cur, buf );
    appendLog( line, size_t( std::min( m, int( sizeof( line ) ) - 1 ) ) );
  }
}

void note( char const * fmt, ... )
{
  if( !g_verbose ) return;
  char buf[ 1024 ], line[ 1100 ];
  va_list ap; va_start( ap, fmt );
  std::vsnprintf( buf, sizeof( buf ), fmt, ap );
  va_end( ap );
  int const m = std::snprintf( line, sizeof( line ), "[%llu t%d] %s", (unsigned long long) nSteps, cur, buf );
  appendLog( line, size_t( std::min( m, int( sizeof( line ) ) - 1 ) ) );
}

void fail( char const * cls, char const * fmt, ... )
{
  char buf[ 2800 ];
  va_list ap; va_start( ap, fmt );
  std::vsnprintf( buf, sizeof( buf ), fmt, ap );
  va_end( ap );
  failMsg( cls, buf );
}

void known( char const * key, char const * fmt, ... )
{
  char buf[ 340 ];
  va_list ap; va_start( ap, fmt );
  std::vsnprintf( buf, sizeof( buf ), fmt, ap );
  va_end( ap );
  // a finding that is not listed is a violation
  char const * p = std::strstr( g_known, key );
  size_t const n = std::strlen( key );
  if( !p || ( p != g_known && p[ -1 ] != ',' ) || ( p[ n ] && p[ n ] != ',' ) ) failMsg( key, buf );
  char line[ 400 ];
  std::snprintf( line, sizeof( line ), "%s\t%s", key, buf );
  for( u32 i = 0; i < R->nknown; ++i )
    if( !std::strncmp( R->known[ i ], key, std::strlen( key ) ) && R->known[ i ][ std::strlen( key ) ] == '\t' ) return;
  if( R->nknown < 8 ) std::memcpy( R->known[ R->nknown++ ], line, sizeof( line ) );
}

static void count( char const * pre, char const * name, u64 n )
{
  char full[ 56 ];
  std::snprintf( full, sizeof( full ), "%s%s", pre, name );
  for( u32 i = 0; i < R->ncnt; ++i ) if( !std::strcmp( R->cnt[ i ].name, full ) ) { R->cnt[ i ].n += n; return; }
  if( R->ncnt >= CNT_MAX ) internalError( "too many counters" );
  Counter & c = R->cnt[ R->ncnt++ ];
  std::memcpy( c.name, full, sizeof( full ) ); c.n = n;
}
void probe( char const * name, std::uint64_t n ) { if( !std::strcmp( name, "nontrivial" ) ) R->nontrivial = 1; count( "p:", name, n ); }
void fault_fired( char const * name ) { count( "f:", name, 1 ); hashMix( hashStr( name, std::strlen( name ) ) ); }

NoTrack::NoTrack() { F[ cur ].noTrack++; }
NoTrack::~NoTrack() { F[ cur ].noTrack--; }
NoPreempt::NoPreempt() { F[ cur ].noPreempt++; }
NoPreempt::~NoPreempt() { F[ cur ].noPreempt--; }
DeviceScope::DeviceScope() { F[ cur ].device++; }
DeviceScope::~DeviceScope() { F[ cur ].device--; }
bool onDevice() { return F[ cur ].device != 0; }

// ------------------------------------------------------------------------------------------------ concurrency
int self() { return cur; }
int liveThreads() { return nLive; }
int hostThreads() { return teamSize; }
std::uint64_t steps() { return nSteps; }
int spawned() { return int( R->spawned ); }

void parallel( int n, std::function< void( int ) > const & body )
{
  if( n <= 0 ) return;
  int const me = cur;
  std::vector< std::function< void() > > fns;
  {
    NoTrack q;
    fns.reserve( size_t( n ) );
    for( int i = 0; i < n; ++i ) fns.push_back( [ &body, i ] { body( i ); } );
  }
  // at most MAXF - nLive at once
  int done = 0;
  while( done < n )
  {
    int const k = std::min( n - done, MAXF - nLive );
    if( k <= 0 ) internalError( "too many simulated threads" );
    F[ me ].pendingChildren += k;
    for( int i = 0; i < k; ++i ) spawnFiber( &fns[ size_t( done + i ) ], me, F[ me ].stopGroup );
    F[ me ].state = 2; F[ me ].waitKind = 1;
    forcedSwitch();
    done += k;
  }
  NoTrack q;
  fns.clear();
}

void yield() { schedPoint( true ); }

void Mutex::lock()
{
  if( !inRun ) return;
  schedPoint( true );
  while( owner >= 0 && F[ owner ].state != 0 )
  {
    if( owner == cur ) failMsg( "deadlock", "a simulated thread locks a mutex it already holds" );
    Fiber & f = F[ cur ];
    f.state = 2; f.waitKind = 2; f.waitMutex = this;
    forcedSwitch();
  }
  owner = cur;
  vcJoin( F[ cur ].vc, clock );
}
bool Mutex::try_lock()
{
  schedPoint( true );
  if( owner >= 0 && F[ owner ].state != 0 ) return false;
  owner = cur;
  vcJoin( F[ cur ].vc, clock );
  return true;
}
void Mutex::unlock()
{
  if( !inRun ) return;
  if( owner != cur ) failMsg( "bad-unlock", "a simulated thread unlocks a mutex it does not hold" );
  std::memcpy( clock, F[ cur ].vc.c, sizeof( clock ) );
  F[ cur ].vc.c[ cur ]++;
  owner = -1;
  for( int i = 0; i < MAXF; ++i ) if( F[ i ].state == 2 && F[ i ].waitKind == 2 && F[ i ].waitMutex == this ) { F[ i ].state = 1; F[ i ].waitKind = 0; }
  schedPoint( true );
}

void atomicPoint( void const volatile * p, std::size_t size, bool write )
{
  if( !inRun || F[ cur ].noTrack ) return;
  if( ++nSteps > stepCap ) hang();
  schedPoint( true );
  uintptr_t const a = uintptr_t( p );
  if( a - HOST_LO < 2 * ARENA )
  {
    u8 const * s = addrShadow( a );
    for( size_t i = 0; i < size; ++i ) if( s[ i ] != 1 ) badAccess( a, size, write, __builtin_return_address( 0 ) );
    if( ( a >= DEV_LO ) != bool( F[ cur ].device ) ) failMsg( "wrong-space-access", "atomic access to memory of the other space" );
  }
  if( nLive > 1 ) raceAccess( a, size, write, true, __builtin_return_address( 0 ) );
}

// ------------------------------------------------------------------------------------------------ fail-stop
bool stops( std::function< void() > const & f )
{
  if( nGroups >= 512 ) internalError( "too many fail-stop scopes" );
  int const g = nGroups++;
  G[ g ] = StopGroup{ F[ cur ].stopGroup, cur, false };
  capture.n = 0;
  int const me = cur;
  std::function< void() > fn( f );
  F[ me ].pendingChildren += 1;
  spawnFiber( &fn, me, g );
  F[ me ].state = 2; F[ me ].waitKind = 1;
  forcedSwitch();
  NoTrack q;
  g_stopOut->assign( capture.buf, capture.n );
  capture.n = 0;
  return G[ g ].stopped;
}
std::string const & stopOutput() { return *g_stopOut; }
int stopCount() { return g_stopCount; }
std::string takeOutput() { NoTrack q; std::string s( capture.buf, capture.n ); capture.n = 0; return s; }

void errorStop( char const * why )
{
  ++g_stopCount;
  int const g = F[ cur ].stopGroup;
  if( g < 0 || G[ g ].stopped )
  {
    char msg[ 2600 ];
    capture.buf[ std::min( capture.n, sizeof( capture.buf ) - 1 ) ] = 0;
    // keep the interesting tail of the output: up to the stack trace
    char const * b = capture.buf;
    char const * e = std::strstr( b, "** StackTrace" );
    size_t len = e ? size_t( e - b ) : std::strlen( b );
    size_t const keep = std::min< size_t >( len, 1500 );
    std::snprintf( msg, sizeof( msg ), "the program stopped (%s) although no operation was invalid: %.*s", why, int( keep ), b + ( len - keep ) );
    failMsg( "unexpected-stop", msg );
  }
  G[ g ].stopped = true;
  log( "  program stops (%s)", why );
  int const w = G[ g ].waiter;
  int const me = cur;
  for( int i = 1; i < MAXF; ++i )
    if( F[ i ].state != 0 && groupWithin( F[ i ].stopGroup, g ) )
    {
      F[ i ].state = 0; --nLive;
      uintptr_t const lo = STACK_LO + size_t( i ) * STACK_SZ;   // the elements on its stack are gone with it
      for( auto & t : lifeTab ) if( t.a - lo < STACK_SZ ) { t.a = 1; --lifeLive; }
    }
  F[ w ].pendingChildren = 0;
  vcJoin( F[ w ].vc, F[ me ].vc.c );
  F[ w ].state = 1; F[ w ].waitKind = 0;
  forcedSwitch();
  __builtin_trap();
}

// ------------------------------------------------------------------------------------------------ memory
HeapStats heap() { return HeapStats{ liveBlocks, liveBytes, nMallocs, nFrees, liveMalloc }; }
void failNextMalloc( int c ) { mallocFailCountdown = c; }
void mallocFailPolicy( std::uint32_t pm ) { mallocFailPm = pm; }
std::uint64_t mallocFailures() { return mallocNulls; }
void setMallocLimit( std::size_t b ) { mallocLimit = b; }

static bool shouldFail( size_t const size )
{
  if( mallocFailCountdown > 0 && --mallocFailCountdown == 0 )
  { ++mallocNulls; fault_fired( "malloc-null" ); log( "  fault malloc returns null" ); return true; }
  if( mallocFailPm && faultPoint( "malloc-null", mallocFailPm ) ) { ++mallocNulls; return true; }
  if( size > mallocLimit ) { ++mallocNulls; fault_fired( "malloc-exhausted" ); log( "  fault malloc of %zu bytes exceeds what is left", size ); return true; }
  return false;
}

void * hostAlloc( std::size_t size )
{
  if( !inRun ) return __real_malloc( size );
  schedPoint( true );
  if( shouldFail( size ) ) return nullptr;
  void * p = arenaAlloc( size, tag_malloc );
  if( !p ) { ++mallocNulls; fault_fired( "malloc-too-large" ); log( "  malloc of %zu bytes returns null", size ); }
  return p;
}
void hostFree( void * p )
{
  if( !p ) return;
  if( !inArena( p ) ) { __real_free( p ); return; }
  if( !inRun ) return;
  schedPoint( true );
  arenaFree( p, tag_malloc, __builtin_return_address( 0 ) );
}
void * devAlloc( std::size_t size ) { schedPoint( true ); return arenaAlloc( size, tag_dev ); }
void devFree( void * p ) { if( p ) { schedPoint( true ); arenaFree( p, tag_dev, __builtin_return_address( 0 ) ); } }
std::size_t blockSize( void const * p ) { if( !inArena( p ) ) return 0; Header * h = headerOf( p ); return h->magic == 0xA7 && h->state == 1 ? h->size : 0; }
bool isDevice( void const * p ) { return uintptr_t( p ) - DEV_LO < ARENA; }
bool isHostHeap( void const * p ) { return uintptr_t( p ) - HOST_LO < ARENA; }
bool addressable( void const * p, std::size_t n )
{
  if( !inArena( p ) ) return true;
  u8 * s = addrShadow( uintptr_t( p ) );
  for( size_t i = 0; i < n; ++i ) if( s[ i ] != 1 ) return false;
  return true;
}
void forbid( void const * p, std::size_t n ) { if( inArena( p ) ) { u8 * s = addrShadow( uintptr_t( p ) ); for( size_t i = 0; i < n; ++i ) if( s[ i ] == 1 ) s[ i ] = 4; } }
void allow( void const * p, std::size_t n ) { if( inArena( p ) ) { u8 * s = addrShadow( uintptr_t( p ) ); for( size_t i = 0; i < n; ++i ) if( s[ i ] == 4 ) s[ i ] = 1; } }
void scramble( void * p, std::size_t n ) { fillMem( p, n, 2 ); }
void rawCopy( void * d, void const * s, std::size_t n ) { std::memmove( d, s, n ); }

// ------------------------------------------------------------------------------------------------ element life times

static LifeSlot * lifeFind( uintptr_t a, bool insert )
{
  size_t const M = ( 1 << 14 ) - 1;
  size_t h = mix( a ) & M;
  LifeSlot * tomb = nullptr;
  for( size_t i = 0; i <= M; ++i, h = ( h + 1 ) & M )
  {
    if( lifeTab[ h ].a == a ) return &lifeTab[ h ];
    if( lifeTab[ h ].a == 1 ) { if( !tomb ) tomb = &lifeTab[ h ]; continue; }
    if( lifeTab[ h ].a == 0 ) { if( !insert ) return nullptr; LifeSlot * s = tomb ? tomb : &lifeTab[ h ]; s->a = a; return s; }
  }
  internalError( "life table full" );
}

bool lifeIsLive( void const * p )
{
  uintptr_t const a = uintptr_t( p );
  if( inArena( p ) ) return *lifeShadow( a ) == 1;
  return lifeFind( a, false ) != nullptr;
}
void lifeConstruct( void const * p, std::size_t size, char const * how )
{
  if( lifeIsLive( p ) ) fail( "construct-over-live", "an element is %s on top of a live element", how );
  uintptr_t const a = uintptr_t( p );
  if( inArena( p ) )
  {
    if( !addressable( p, size ) ) badAccess( a, size, true, __builtin_return_address( 0 ) );
    *lifeShadow( a ) = 1;
  }
  else lifeFind( a, true );
  ++lifeLive;
}
bool lifeDestroy( void const * p, std::size_t )
{
  if( inArena( p ) && *lifeShadow( uintptr_t( p ) ) == 2 ) { *lifeShadow( uintptr_t( p ) ) = 0; return false; }
  if( !lifeIsLive( p ) ) fail( "destroy-dead", "an element that is not alive is destroyed (destroyed twice or never constructed)" );
  uintptr_t const a = uintptr_t( p );
  if( inArena( p ) ) *lifeShadow( a ) = 0;
  else lifeFind( a, false )->a = 1;
  --lifeLive;
  return true;
}
static uintptr_t blockOf( uintptr_t a )
{ // the start of the live block that contains a: the nearest header below it
  for( uintptr_t q = a & ~uintptr_t( 15 ); q >= HOST_LO + 32 && a - q < ( 1u << 20 ); q -= 16 )
  {
    Header * h = reinterpret_cast< Header * >( q - 16 );
    if( addrShadow( q )[ 0 ] == 1 && addrShadow( q - 1 )[ 0 ] == 0 && h->magic == 0xA7 ) return h->state == 1 && a < q + h->size ? q : 0;
  }
  return 0;
}
bool lifeRelocate( void const * dst, void const * src, std::size_t size, bool report )
{
  if( !inArena( dst ) || !inArena( src ) || !addressable( dst, size ) || !addressable( src, size ) ) return false;
  uintptr_t const d = uintptr_t( dst ), s = uintptr_t( src );
  uintptr_t const bd = blockOf( d ), bs = blockOf( s );
  if( !bd || !bs || bd == bs || d - bd != s - bs ) return false;
  if( *lifeShadow( d ) == 1 ) return false;
  *lifeShadow( s ) = 2;
  probe( "dead-slot-relocated" );
  if( report ) known( "dead-slot-relocation", "growing the values buffer of a ragged container moves and destroys slots in which no element lives" );
  return true;
}
std::uint64_t lifeCount() { return lifeLive; }

} // namespace sim

// ------------------------------------------------------------------------------------------------ C allocation wrappers
extern "C" {
void * __wrap_malloc( size_t n ) { return sim::hostAlloc( n ); }
void __wrap_free( void * p ) { sim::hostFree( p ); }
void * __wrap_calloc( size_t a, size_t b )
{
  if( !inRun ) return __real_calloc( a, b );
  void * p = sim::hostAlloc( a * b );
  if( p ) std::memset( p, 0, a * b );
  return p;
}
void * __wrap_realloc( void * p, size_t n )
{
  if( !inRun || ( p && !inArena( p ) ) ) return __real_realloc( p, n );
  void * q = sim::hostAlloc( n );
  if( !q ) return nullptr;
  if( p ) { std::memcpy( q, p, std::min< size_t >( n, headerOf( p )->size ) ); sim::hostFree( p ); }
  return q;
}
void * __wrap_aligned_alloc( size_t, size_t n ) { return sim::hostAlloc( n ); }
int __wrap_posix_memalign( void * * out, size_t, size_t n ) { *out = sim::hostAlloc( n ); return *out ? 0 : ENOMEM; }
void __wrap_abort() { if( inRun ) sim::errorStop( "abort" ); __real_abort(); }
void __wrap_exit( int c ) { if( inRun ) sim::errorStop( "exit" ); _exit( c ); }

// std::mutex in the code under test
struct MtxSlot { pthread_mutex_t * m; sim::Mutex s; };
static MtxSlot mtx[ 64 ];
static sim::Mutex & mtxFor( pthread_mutex_t * m )
{
  for( auto & x : mtx ) { if( x.m == m ) return x.s; if( !x.m ) { x.m = m; return x.s; } }
  internalError( "too many mutexes" );
}
int __wrap_pthread_mutex_lock( pthread_mutex_t * m ) { if( !inRun ) return __real_pthread_mutex_lock( m ); mtxFor( m ).lock(); return 0; }
int __wrap_pthread_mutex_unlock( pthread_mutex_t * m ) { if( !inRun ) return __real_pthread_mutex_unlock( m ); mtxFor( m ).unlock(); return 0; }
int __wrap_pthread_mutex_trylock( pthread_mutex_t * m ) { if( !inRun ) return __real_pthread_mutex_trylock( m ); return mtxFor( m ).try_lock() ? 0 : EBUSY; }
}

static void * newImpl( size_t n )
{
  if( !inRun ) { void * p = __real_malloc( n ? n : 1 ); if( !p ) __real_abort(); return p; }
  void * p = arenaAlloc( n, tag_new );
  if( !p ) throw std::bad_alloc();
  return p;
}
static void delImpl( void * p, void * pc )
{
  if( !p ) return;
  if( !inArena( p ) ) { __real_free( p ); return; }
  if( !inRun ) return;
  arenaFree( p, tag_new, pc );
}
void * operator new( size_t n ) { return newImpl( n ); }
void * operator new[]( size_t n ) { return newImpl( n ); }
void * operator new( size_t n, std::nothrow_t const & ) noexcept { try { return newImpl( n ); } catch( ... ) { return nullptr; } }
void * operator new[]( size_t n, std::nothrow_t const & ) noexcept { try { return newImpl( n ); } catch( ... ) { return nullptr; } }
void operator delete( void * p ) noexcept { delImpl( p, __builtin_return_address( 0 ) ); }
void operator delete[]( void * p ) noexcept { delImpl( p, __builtin_return_address( 0 ) ); }
void operator delete( void * p, size_t ) noexcept { delImpl( p, __builtin_return_address( 0 ) ); }
void operator delete[]( void * p, size_t ) noexcept { delImpl( p, __builtin_return_address( 0 ) ); }

// ------------------------------------------------------------------------------------------------ instrumentation entry points
#define PC __builtin_return_address( 0 )
extern "C" {
void __tsan_init() {}
void __tsan_func_entry( void * ) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW( N ) \
  void __tsan_read##N( void * p ) { access( p, N, false, PC ); } \
  void __tsan_write##N( void * p ) { access( p, N, true, PC ); } \
  void __tsan_read_write##N( void * p ) { access( p, N, false, PC ); access( p, N, true, PC ); } \
  void __tsan_volatile_read##N( void * p ) { access( p, N, false, PC ); } \
  void __tsan_volatile_write##N( void * p ) { access( p, N, true, PC ); } \
  void __tsan_unaligned_read##N( void * p ) { access( p, N, false, PC ); } \
  void __tsan_unaligned_write##N( void * p ) { access( p, N, true, PC ); } \
  void __tsan_unaligned_volatile_read##N( void * p ) { access( p, N, false, PC ); } \
  void __tsan_unaligned_volatile_write##N( void * p ) { access( p, N, true, PC ); } \
  void __tsan_unaligned_read_write##N( void * p ) { access( p, N, false, PC ); access( p, N, true, PC ); }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
void __tsan_vptr_update( void * p, void * ) { access( p, 8, true, PC ); }
void __tsan_vptr_read( void * p ) { access( p, 8, false, PC ); }
void __tsan_read_range( void * p, size_t n ) { rangeAccess( p, n, false, PC ); }
void __tsan_write_range( void * p, size_t n ) { rangeAccess( p, n, true, PC ); }
void * __tsan_memcpy( void * d, void const * s, size_t n )
{ rangeAccess( s, n, false, PC ); rangeAccess( d, n, true, PC );
  if( n && inRun && d != s && uintptr_t( d ) < uintptr_t( s ) + n && uintptr_t( s ) < uintptr_t( d ) + n ) failMsg( "memcpy-overlap", "memcpy with overlapping source and destination" );
  return std::memmove( d, s, n ); }
void * __tsan_memmove( void * d, void const * s, size_t n ) { rangeAccess( s, n, false, PC ); rangeAccess( d, n, true, PC ); return std::memmove( d, s, n ); }
void * __tsan_memset( void * d, int c, size_t n ) { rangeAccess( d, n, true, PC ); return std::memset( d, c, n ); }

static bool isAcq( int mo ) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool isRel( int mo ) { return mo == 3 || mo == 4 || mo == 5; }
static void atomSync( void const volatile * p, int mo, bool wr )
{
  if( !inRun || nLive <= 1 ) return;
  SyncVar * v = syncVar( uintptr_t( p ) );
  if( isAcq( mo ) ) vcJoin( F[ cur ].vc, v->c );
  if( wr && isRel( mo ) ) { for( int i = 0; i < MAXF; ++i ) v->c[ i ] = std::max( v->c[ i ], F[ cur ].vc.c[ i ] ); F[ cur ].vc.c[ cur ]++; }
}
#define ATOMICS( B, T ) \
  T __tsan_atomic##B##_load( T const volatile * a, int mo ) { sim::atomicPoint( a, sizeof( T ), false ); atomSync( a, mo, false ); return *a; } \
  void __tsan_atomic##B##_store( T volatile * a, T v, int mo ) { sim::atomicPoint( a, sizeof( T ), true ); atomSync( a, mo, true ); *a = v; } \
  T __tsan_atomic##B##_exchange( T volatile * a, T v, int mo ) { sim::atomicPoint( a, sizeof( T ), true ); atomSync( a, mo, true ); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add( T volatile * a, T v, int mo ) { sim::atomicPoint( a, sizeof( T ), true ); atomSync( a, mo, true ); T o = *a; *a = T( o + v ); return o; } \
  T __tsan_atomic##B##_fetch_sub( T volatile * a, T v, int mo ) { sim::atomicPoint( a, sizeof( T ), true ); atomSync( a, mo, true ); T o = *a; *a = T( o - v ); return o; } \
  T __tsan_atomic##B##_fetch_and( T volatile * a, T v, int mo ) { sim::atomicPoint( a, sizeof( T ), true ); atomSync( a, mo, true ); T o = *a; *a = T( o & v ); return o; } \
  T __tsan_atomic##B##_fetch_or( T volatile * a, T v, int mo ) { sim::atomicPoint( a, sizeof( T ), true ); atomSync( a, mo, true ); T o = *a; *a = T( o | v ); return o; } \
  T __tsan_atomic##B##_fetch_xor( T volatile * a, T v, int mo ) { sim::atomicPoint( a, sizeof( T ), true ); atomSync( a, mo, true ); T o = *a; *a = T( o ^ v ); return o; } \
  T __tsan_atomic##B##_fetch_nand( T volatile * a, T v, int mo ) { sim::atomicPoint( a, sizeof( T ), true ); atomSync( a, mo, true ); T o = *a; *a = T( ~( o & v ) ); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong( T volatile * a, T * c, T v, int mo, int fmo ) \
  { sim::atomicPoint( a, sizeof( T ), true ); T o = *a; if( o == *c ) { atomSync( a, mo, true ); *a = v; return 1; } atomSync( a, fmo, false ); *c = o; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak( T volatile * a, T * c, T v, int mo, int fmo ) \
  { sim::atomicPoint( a, sizeof( T ), true ); T o = *a; if( o == *c ) { atomSync( a, mo, true ); *a = v; return 1; } atomSync( a, fmo, false ); *c = o; return 0; } \
  T __tsan_atomic##B##_compare_exchange_val( T volatile * a, T c, T v, int mo, int fmo ) \
  { sim::atomicPoint( a, sizeof( T ), true ); T o = *a; if( o == c ) { atomSync( a, mo, true ); *a = v; } else atomSync( a, fmo, false ); return o; }
ATOMICS( 8, u8 ) ATOMICS( 16, std::uint16_t ) ATOMICS( 32, u32 ) ATOMICS( 64, u64 )
void __tsan_atomic_thread_fence( int ) {}
void __tsan_atomic_signal_fence( int ) {}
}

// ------------------------------------------------------------------------------------------------ runner
namespace
{

void onSignal( int sig, siginfo_t * si, void * )
{
  if( sig == SIGPROF )
  {
    std::snprintf( R->cls, sizeof( R->cls ), "hang" );
    std::snprintf( R->msg, sizeof( R->msg ), "the run did not end within the CPU limit" );
    R->hash = 0;
    finish( st_violation );
  }
  char const * n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGABRT ? "SIGABRT" : "signal";
  uintptr_t const a = sig == SIGABRT ? 0 : uintptr_t( si->si_addr );  // for SIGABRT it is the process id
  char cls[ 40 ], msg[ 200 ];
  std::snprintf( cls, sizeof( cls ), "crash-%s", n );
  std::snprintf( msg, sizeof( msg ), "the process died with %s while simulated thread %d ran (fault address %#llx%s)", n, cur, (unsigned long long) ( a < ( 1ULL << 47 ) ? a : 0 ),
                 a - STACK_LO < STACKS ? ", inside the simulated stacks" : "" );
  failMsg( cls, msg );
}

void * mapAt( uintptr_t a, size_t n )
{
  void * p = mmap( reinterpret_cast< void * >( a ), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 );
  if( p != reinterpret_cast< void * >( a ) ) { std::perror( "mmap" ); std::fprintf( stderr, "cannot map simulated memory\n" ); _exit( 70 ); }
  return p;
}

std::function< void() > * mainFn = nullptr;

void mapAll()
{
  mapAt( HOST_LO, 2 * ARENA );
  mapAt( STACK_LO, STACKS );
  // a guard page at the bottom of each stack
  for( int i = 0; i < MAXF; ++i ) mprotect( reinterpret_cast< void * >( STACK_LO + size_t( i ) * STACK_SZ ), 4096, PROT_NONE );
  mapAt( ADDR_SHADOW, 2 * ARENA );
  mapAt( RACE_SHADOW_A, 2 * ARENA * 8 );
  mapAt( RACE_SHADOW_S, STACKS * 8 );
  mapAt( RACE_SHADOW_G, ( size_t( &_end - &__data_start ) + 4096 ) * 8 );
  mapAt( LIFE_SHADOW, 2 * ARENA / 8 );
}

// Everything that happens in the forked child of one run.
[[noreturn]] void childRun( u64 seed, u64 run, Input const * input )
{
  g_seed = seed; g_run = run;
  u64 const base = mix( mix( seed ) ^ ( run * 0x9e3779b97f4a7c15ULL + 12345 ) );
  rOps.s = mix( base ^ 1 ); rSched.s = mix( base ^ 2 ); rEnv.s = mix( base ^ 3 ); rHeap.s = mix( base ^ 4 ); rFault.s = mix( base ^ 5 );
  Rng cfg{ mix( base ^ 6 ) };
  in = input; replaying = input != nullptr;
  hostTop = HOST_LO; devTop = DEV_LO;

  // swarm configuration of this run, a function of the seed only
  static u32 const means[] = { 1, 2, 3, 5, 10, 30, 100, 400 };
  int const m = int( cfg.below( 10 ) );
  schedMode = m < 6 ? 1 : m < 8 ? 2 : 3;
  meanRun = means[ cfg.below( 8 ) ];
  nPct = 1 + int( cfg.below( 4 ) );
  u32 const horizon = cfg.below( 3 ) == 0 ? 300 : cfg.below( 2 ) ? 2000 : 15000;
  for( int i = 0; i < nPct; ++i ) pctPoints[ i ] = cfg.below( horizon );
  countdown = 1;
  teamSize = 2 + int( cfg.below( 4 ) );
  heapReuse = int( cfg.below( 3 ) );
  heapFill = int( cfg.below( 4 ) );
  freeFill = int( cfg.below( 3 ) );
  if( heapReuse && heapFill == 3 ) freeFill = 0;               // really stale contents

  std::cout.rdbuf( &capture );
  stack_t ss{}; static char alt[ 32768 ]; ss.ss_sp = alt; ss.ss_size = sizeof( alt ); sigaltstack( &ss, nullptr );
  struct sigaction sa{}; sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for( int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF } ) sigaction( s, &sa, nullptr );
  itimerval tv{}; tv.it_value.tv_sec = 20; setitimer( ITIMER_PROF, &tv, nullptr );

  for( int i = 0; i <= MAXF; ++i ) { F[ i ] = Fiber{}; F[ i ].vc.c[ i ] = 1; F[ i ].stopGroup = -1; }
  F[ 0 ].state = 1; F[ 0 ].fn = mainFn; F[ 0 ].prio = 1; F[ 0 ].parent = 0;
  initialRegs( F[ 0 ] );
  prepareStack( 0 );
  nLive = 1; cur = 0;
  hashMix( base );
  inRun = true;
  void * dummy;
  sim_switch( &dummy, F[ 0 ].sp );
  __builtin_trap();
}

struct Outcome { int status; std::string cls, msg; u64 hash; };

Outcome doRun( u64 seed, u64 run, Input const * input, bool verbose )
{
  std::memset( R, 0, offsetof( Shared, cnt ) );
  R->loglen = 0; R->log[ 0 ] = 0;
  g_verbose = verbose;
  // tapes for the child
  std::vector< SchedEntry > byFiber[ MAXF + 1 ];
  std::unordered_set< u64 > fs;
  if( input )
  {
    for( auto const & e : input->sched ) if( e.fiber < MAXF ) byFiber[ e.fiber ].push_back( e );
    for( auto & v : byFiber ) std::stable_sort( v.begin(), v.end(), []( SchedEntry const & a, SchedEntry const & b ) { return a.step < b.step; } );
    for( auto const & e : input->fault ) fs.insert( u64( e.kind ) << 32 | e.ordinal );
  }
  schedByFiber = byFiber; faultSet = &fs;
  std::fflush( nullptr );
  pid_t const pid = fork();
  if( pid < 0 ) { std::perror( "fork" ); _exit( 71 ); }
  if( pid == 0 ) childRun( seed, run, input );
  int st = 0;
  while( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
  Outcome o;
  if( R->status == st_running )
  {
    R->status = st_internal;
    if( WIFSIGNALED( st ) ) std::snprintf( R->msg, sizeof( R->msg ), "child killed by signal %d", WTERMSIG( st ) );
    else std::snprintf( R->msg, sizeof( R->msg ), "child exited with %d without a result", WEXITSTATUS( st ) );
    std::snprintf( R->cls, sizeof( R->cls ), "internal" );
  }
  o.status = R->status; o.cls = R->cls; o.msg = R->msg; o.hash = mix( R->hash ^ hashStr( R->cls, std::strlen( R->cls ) ) );
  return o;
}

Input recorded()
{
  Input i;
  i.ops.assign( R->ops, R->ops + R->nops );
  i.env.assign( R->env, R->env + R->nenv );
  i.sched.assign( R->sched, R->sched + R->nsched );
  i.fault.assign( R->fault, R->fault + R->nfault );
  return i;
}

std::string clean( std::string s ) { for( char & c : s ) if( c == '\n' || c == '\r' || c == '\t' ) c = ' '; return s; }

void writeReplay( std::string const & path, std::string const & binary, u64 seed, u64 run, Outcome const & o, Input const & i, std::string const & trace )
{
  std::ofstream f( path );
  f << "binary " << binary << "\nseed " << seed << "\nrun " << run << "\nclass " << o.cls << "\nmessage " << clean( o.msg ) << "\nhash " << o.hash << "\n";
  f << "ops"; for( u32 v : i.ops ) f << ' ' << v; f << "\n";
  f << "env"; for( u32 v : i.env ) f << ' ' << v; f << "\n";
  f << "sched"; for( auto const & e : i.sched ) f << ' ' << int( e.fiber ) << ':' << e.step << ':' << int( e.target ) << ':' << int( e.forced ); f << "\n";
  f << "faults"; for( auto const & e : i.fault ) f << ' ' << e.kind << ':' << e.ordinal; f << "\n";
  f << "trace\n" << trace;
}

struct Replay { u64 seed = 0, run = 0, hash = 0; std::string binary, cls, msg; Input in; };

bool readReplay( std::string const & path, Replay & r )
{
  std::ifstream f( path );
  if( !f ) return false;
  std::string line;
  while( std::getline( f, line ) )
  {
    std::istringstream s( line );
    std::string k; s >> k;
    if( k == "binary" ) s >> r.binary;
    else if( k == "seed" ) s >> r.seed;
    else if( k == "run" ) s >> r.run;
    else if( k == "hash" ) s >> r.hash;
    else if( k == "class" ) s >> r.cls;
    else if( k == "message" ) std::getline( s, r.msg );
    else if( k == "ops" ) { u32 v; while( s >> v ) r.in.ops.push_back( v ); }
    else if( k == "env" ) { u32 v; while( s >> v ) r.in.env.push_back( v ); }
    else if( k == "sched" ) { int a, c, d; u64 b; char x; while( s >> a >> x >> b >> x >> c >> x >> d ) r.in.sched.push_back( SchedEntry{ u32( b ), u8( a ), u8( c ), u8( d ), 0 } ); }
    else if( k == "faults" ) { u32 a, b; char x; while( s >> a >> x >> b ) r.in.fault.push_back( FaultEntry{ a, b } ); }
    else if( k == "trace" ) break;
  }
  return true;
}

double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return double( t.tv_sec ) + 1e-9 * double( t.tv_nsec ); }

std::string jsonStr( std::string const & s )
{
  std::string o = "\"";
  for( char c : s )
  {
    if( c == '"' || c == '\\' ) { o += '\\'; o += c; }
    else if( c == '\n' ) o += "\\n";
    else if( u8( c ) < 32 || u8( c ) >= 127 ) { char b[ 8 ]; std::snprintf( b, sizeof( b ), "\\u%04x", u8( c ) ); o += b; }
    else o += c;
  }
  return o + "\"";
}

// ---- minimisation
struct Minimiser
{
  u64 seed, run; std::string cls; double deadline; int tries = 0;
  Input best; std::vector< std::pair< u32, u32 > > spans;
  bool attempt( Input const & c )
  {
    if( now() > deadline ) return false;
    ++tries;
    Outcome o = doRun( seed, run, &c, false );
    if( o.status == st_violation && o.cls == cls )
    {
      best = recorded();
      spans.clear();
      for( u32 i = 0; i < R->nspans; ++i ) if( R->spanEnd[ i ] > R->spanBegin[ i ] ) spans.push_back( { R->spanBegin[ i ], R->spanEnd[ i ] } );
      return true;
    }
    return false;
  }
  size_t weight( Input const & i ) { size_t w = i.ops.size() * 4 + i.sched.size() * 4 + i.fault.size() * 4; for( u32 v : i.ops ) w += v != 0; return w; }
  void go()
  {
    bool progress = true;
    while( progress && now() < deadline )
    {
      progress = false;
      size_t const w0 = weight( best );
      // drop whole operations, last first, in halving chunks
      for( size_t chunk = std::max< size_t >( 1, spans.size() / 2 ); chunk >= 1; chunk /= 2 )
      {
        for( long i = long( spans.size() ) - long( chunk ); i >= 0 && now() < deadline; i -= long( chunk ) )
        {
          if( size_t( i ) + chunk > spans.size() ) continue;
          u32 const b = spans[ size_t( i ) ].first, e = std::max( spans[ size_t( i ) + chunk - 1 ].second, spans[ size_t( i ) ].second );
          if( e > best.ops.size() ) continue;
          Input c = best;
          c.ops.erase( c.ops.begin() + b, c.ops.begin() + e );
          attempt( c );
        }
        if( chunk == 1 ) break;
      }
      // schedule entries
      auto ddminSched = [ & ]
      {
        for( size_t chunk = std::max< size_t >( 1, best.sched.size() / 2 ); chunk >= 1; chunk /= 2 )
        {
          for( long i = long( best.sched.size() ) - long( chunk ); i >= 0 && now() < deadline; i -= long( chunk ) )
          {
            if( size_t( i ) + chunk > best.sched.size() ) continue;
            Input c = best;
            bool anyPre = false;
            for( size_t k = 0; k < chunk; ++k ) anyPre |= !best.sched[ size_t( i ) + k ].forced;
            if( !anyPre ) continue;
            c.sched.erase( std::remove_if( c.sched.begin() + i, c.sched.begin() + i + long( chunk ), []( SchedEntry const & x ) { return !x.forced; } ),
                           c.sched.begin() + i + long( chunk ) );
            if( c.sched.size() < best.sched.size() ) { size_t const before = best.sched.size(); if( attempt( c ) && best.sched.size() >= before ) { /* no gain */ } }
          }
          if( chunk == 1 ) break;
        }
      };
      ddminSched();
      // faults
      for( long i = long( best.fault.size() ) - 1; i >= 0 && now() < deadline; --i )
      { if( size_t( i ) >= best.fault.size() ) continue; Input c = best; c.fault.erase( c.fault.begin() + i ); attempt( c ); }
      // values
      for( size_t i = 0; i < best.ops.size() && now() < deadline; ++i )
      {
        if( best.ops[ i ] == 0 ) continue;
        Input c = best; c.ops[ i ] = 0;
        if( attempt( c ) ) continue;
        if( i < best.ops.size() && best.ops[ i ] > 1 ) { c = best; c.ops[ i ] = best.ops[ i ] / 2; if( attempt( c ) ) continue; }
        if( i < best.ops.size() && best.ops[ i ] > 1 ) { c = best; c.ops[ i ] = best.ops[ i ] - 1; attempt( c ); }
      }
      for( size_t i = 0; i < best.env.size() && now() < deadline; ++i )
      { if( best.env[ i ] == 0 ) continue; Input c = best; c.env[ i ] = 0; attempt( c ); }
      if( weight( best ) < w0 ) progress = true;
    }
  }
};

char const * arg( int c, char * * v, char const * name, char const * def )
{
  for( int i = 1; i + 1 < c; ++i ) if( !std::strcmp( v[ i ], name ) ) return v[ i + 1 ];
  return def;
}

} // namespace

int main( int argc, char * * argv )
{
  rlimit rl{ 0, 0 }; setrlimit( RLIMIT_CORE, &rl );
  R = static_cast< Shared * >( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  mapAll();
  g_stopOut = new std::string; g_stopOut->reserve( 1 << 17 );
  mainFn = new std::function< void() >( [] { scenario(); } );
  { // warm up lazily initialised library state
    std::ostringstream o; o << 1.5 << 7 << "x" << true; std::string s = o.str(); (void) s;
    try { throw std::runtime_error( "warm" ); } catch( std::exception & ) {}
    void * b[ 4 ]; backtrace( b, 4 );
  }
  scenarioWarmup();
  std::string const mode = argc > 1 ? argv[ 1 ] : "";
  std::string const name = [ & ] { std::string s = argv[ 0 ]; auto p = s.rfind( '/' ); return p == std::string::npos ? s : s.substr( p + 1 ); }();
  stepCap = std::strtoull( arg( argc, argv, "--stepcap", "12000000" ), nullptr, 10 );

  g_known = arg( argc, argv, "--known", "" );
  if( mode == "run" )
  {
    u64 const seed = std::strtoull( arg( argc, argv, "--seed", "1" ), nullptr, 10 );
    u64 const first = std::strtoull( arg( argc, argv, "--first", "0" ), nullptr, 10 );
    u64 const stride = std::strtoull( arg( argc, argv, "--stride", "1" ), nullptr, 10 );
    u64 const count = std::strtoull( arg( argc, argv, "--count", "100" ), nullptr, 10 );
    double const limit = std::atof( arg( argc, argv, "--time", "1e9" ) );
    std::string const out = arg( argc, argv, "--out", "" );
    std::string const stopFile = arg( argc, argv, "--stopfile", "" );
    double const t0 = now();
    std::map< std::string, u64 > counters;
    std::unordered_set< u64 > hashes, scheds;
    std::vector< std::string > samples;
    std::map< std::string, std::string > knowns;
    u64 done = 0, maxSteps = 0, maxOps = 0, maxHeap = 0, stepsTotal = 0, switches = 0, nontrivial = 0, threads = 0, withFaults = 0;
    std::string status = "ok", cls, msg; u64 badRun = 0;
    for( u64 k = 0; k < count; ++k )
    {
      if( now() - t0 > limit ) break;
      if( ( k & 31 ) == 31 && !stopFile.empty() && access( stopFile.c_str(), F_OK ) == 0 ) break;
      u64 const run = first + k * stride;
      bool const sample = samples.size() < 2 && first < 4;
      Outcome o = doRun( seed, run, nullptr, sample );
      ++done;
      maxSteps = std::max< u64 >( maxSteps, R->steps ); maxOps = std::max< u64 >( maxOps, R->nops ); maxHeap = std::max< u64 >( maxHeap, R->heapTop );
      stepsTotal += R->steps; switches += R->switches; threads += R->spawned;
      for( u32 i = 0; i < R->ncnt; ++i ) counters[ R->cnt[ i ].name ] += R->cnt[ i ].n;
      bool anyFault = false;
      for( u32 i = 0; i < R->ncnt; ++i ) anyFault |= R->cnt[ i ].name[ 0 ] == 'f';
      withFaults += anyFault;
      for( u32 i = 0; i < R->nknown; ++i ) { std::string s = R->known[ i ]; auto p = s.find( '\t' ); knowns.emplace( s.substr( 0, p ), s.substr( p + 1 ) ); }
      scheds.insert( R->schedHash );
      if( o.status == st_ok )
      {
        if( R->nontrivial ) { ++nontrivial; hashes.insert( o.hash ); }
        if( sample ) samples.push_back( "run " + std::to_string( run ) + "\n" + std::string( R->log, std::min< size_t >( R->loglen, 3000 ) ) );
        continue;
      }
      if( o.status == st_internal ) { status = "internal"; cls = o.cls; msg = o.msg; badRun = run; break; }
      // a violation: the same seed again must do the same
      Outcome o2 = doRun( seed, run, nullptr, false );
      if( o2.status != st_violation || o2.cls != o.cls || ( o2.hash != o.hash && o.cls != "hang" ) )
      { status = "nondeterministic"; cls = o.cls; msg = o.msg + " // second execution: " + o2.cls + " " + o2.msg; badRun = run; break; }
      status = "violation"; cls = o.cls; msg = o.msg; badRun = run;
      if( !out.empty() ) writeReplay( out + ".replay", name, seed, run, o, recorded(), "" );
      break;
    }
    std::ostringstream js;
    js << "{\"binary\":" << jsonStr( name ) << ",\"status\":" << jsonStr( status ) << ",\"class\":" << jsonStr( cls ) << ",\"message\":" << jsonStr( msg )
       << ",\"bad_run\":" << badRun << ",\"runs\":" << done << ",\"max_steps\":" << maxSteps << ",\"max_ops\":" << maxOps << ",\"max_heap\":" << maxHeap << ",\"steps\":" << stepsTotal << ",\"switches\":" << switches << ",\"threads\":" << threads
       << ",\"nontrivial\":" << nontrivial << ",\"distinct\":" << hashes.size() << ",\"distinct_schedules\":" << scheds.size() << ",\"runs_with_faults\":" << withFaults
       << ",\"wall\":" << ( now() - t0 ) << ",\"counters\":{";
    bool f = true;
    for( auto const & c : counters ) { js << ( f ? "" : "," ) << jsonStr( c.first ) << ":" << c.second; f = false; }
    js << "},\"known\":{";
    f = true;
    for( auto const & c : knowns ) { js << ( f ? "" : "," ) << jsonStr( c.first ) << ":" << jsonStr( c.second ); f = false; }
    js << "},\"samples\":[";
    f = true;
    for( auto const & s : samples ) { js << ( f ? "" : "," ) << jsonStr( s ); f = false; }
    js << "]}\n";
    if( !out.empty() )
    {
      std::ofstream( out ) << js.str();
      std::ofstream hf( out + ".hashes", std::ios::binary );
      for( u64 h : hashes ) hf.write( reinterpret_cast< char const * >( &h ), 8 );
      std::ofstream sf( out + ".scheds", std::ios::binary );
      for( u64 h : scheds ) sf.write( reinterpret_cast< char const * >( &h ), 8 );
    }
    else std::fputs( js.str().c_str(), stdout );
    return status == "ok" ? 0 : status == "violation" ? 3 : 4;
  }
  if( mode == "hashes" )
  {
    u64 const seed = std::strtoull( arg( argc, argv, "--seed", "1" ), nullptr, 10 );
    u64 const first = std::strtoull( arg( argc, argv, "--first", "0" ), nullptr, 10 );
    u64 const count = std::strtoull( arg( argc, argv, "--count", "100" ), nullptr, 10 );
    for( u64 k = 0; k < count; ++k )
    {
      Outcome o = doRun( seed, first + k, nullptr, false );
      std::fprintf( stdout, "%llu %d %s %016llx %llu\n", (unsigned long long) ( first + k ), o.status, o.cls.c_str(), (unsigned long long) o.hash, (unsigned long long) R->steps );
    }
    return 0;
  }
  if( mode == "one" )
  {
    u64 const seed = std::strtoull( arg( argc, argv, "--seed", "1" ), nullptr, 10 );
    u64 const run = std::strtoull( arg( argc, argv, "--run", "0" ), nullptr, 10 );
    Outcome o = doRun( seed, run, nullptr, true );
    std::fprintf( stdout, "%s\nstatus %d class %s message %s\nsteps %llu switches %llu hash %llx\n", R->log, o.status, o.cls.c_str(), o.msg.c_str(), (unsigned long long) R->steps, (unsigned long long) R->switches, (unsigned long long) o.hash );
    return 0;
  }
  if( mode == "replay" && argc > 2 )
  {
    Replay r;
    if( !readReplay( argv[ 2 ], r ) ) { std::fprintf( stderr, "cannot read %s\n", argv[ 2 ] ); return 5; }
    Outcome o = doRun( r.seed, r.run, &r.in, true );
    std::fprintf( stdout, "{\"status\":%d,\"class\":%s,\"message\":%s,\"hash\":\"%llu\",\"expected_class\":%s,\"expected_hash\":\"%llu\"}\n", o.status, jsonStr( o.cls ).c_str(), jsonStr( o.msg ).c_str(),
                 (unsigned long long) o.hash, jsonStr( r.cls ).c_str(), (unsigned long long) r.hash );
    for( int i = 3; i < argc; ++i ) if( !std::strcmp( argv[ i ], "-v" ) ) std::fprintf( stdout, "%s", R->log );
    return o.status == st_violation ? 3 : o.status == st_ok ? 0 : 4;
  }
  if( mode == "minimise" && argc > 3 )
  {
    Replay r;
    if( !readReplay( argv[ 2 ], r ) ) { std::fprintf( stderr, "cannot read %s\n", argv[ 2 ] ); return 5; }
    Minimiser m;
    m.seed = r.seed; m.run = r.run; m.cls = r.cls; m.deadline = now() + std::atof( arg( argc, argv, "--time", "30" ) );
    m.best = r.in;
    if( !m.attempt( r.in ) ) { std::fprintf( stderr, "the recorded tapes do not reproduce %s\n", r.cls.c_str() ); return 6; }
    m.go();
    Input const fin = m.best;
    Outcome o = doRun( r.seed, r.run, &fin, true );
    std::string trace( R->log, R->loglen );
    writeReplay( argv[ 3 ], name, r.seed, r.run, o, fin, trace );
    std::fprintf( stdout, "minimised: %zu -> %zu decisions, %zu -> %zu schedule entries, %zu -> %zu faults (%d executions)\n", r.in.ops.size(), fin.ops.size(), r.in.sched.size(),
                 fin.sched.size(), r.in.fault.size(), fin.fault.size(), m.tries );
    return o.status == st_violation && o.cls == r.cls ? 0 : 6;
  }
  std::fprintf( stderr, "usage: %s run|hashes|one|replay|minimise\n", argv[ 0 ] );
  return 64;
}
