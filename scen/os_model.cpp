// See os_model.hpp. Compiled without instrumentation.
#include "os_model.hpp"
#include "sim.hpp"

#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <dlfcn.h>
#include <fenv.h>
#include <map>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unwind.h>
#include <xmmintrin.h>

extern "C" {
int __real_pipe( int * );
int __real_pipe2( int *, int );
pid_t __real_fork();
int __real_close( int );
int __real_dup2( int, int );
int __real_execv( char const *, char * const * );
[[noreturn]] void __real__exit( int );
FILE * __real_fdopen( int, char const * );
ssize_t __real_read( int, void *, size_t );
int __real_kill( pid_t, int );
pid_t __real_waitpid( pid_t, int *, int );
int __real_dladdr( void const *, Dl_info * );
ssize_t __real_readlink( char const *, char *, size_t );
_Unwind_Reason_Code __real__Unwind_Backtrace( _Unwind_Trace_Fn, void * );
_Unwind_Ptr __real__Unwind_GetIP( struct _Unwind_Context * );
_Unwind_Ptr __real__Unwind_GetIPInfo( struct _Unwind_Context *, int * );
char * __real___cxa_demangle( char const *, char *, size_t *, int * );
sighandler_t __real_signal( int, sighandler_t );
int __real_sigaction( int, struct sigaction const *, struct sigaction * );
int __real_feenableexcept( int );
int __real_fedisableexcept( int );
}

namespace os
{
namespace
{

struct Pipe { std::string data; std::size_t pos = 0; int thread = -1; int helper = -1; };
struct Fd { bool open = false; int pipe = -1; bool writeEnd = false; };
struct Proc { pid_t pid; bool reaped = false; };

struct State
{
  Config cfg;
  Fd fd[ 128 ];
  std::vector< Pipe > pipes;
  std::vector< Proc > procs;
  std::vector< Helper > helpers;
  std::map< std::uintptr_t, Symbol > symbols;
  std::map< std::uintptr_t, std::vector< char * > > names;
  std::vector< std::uintptr_t > frames[ 32 ];
  std::size_t helperMark[ 32 ];
  std::uintptr_t asked[ 32 ];
  std::string exe;
};

State * S = nullptr;
bool active = false;
bool inChild = false;

/// What the forked copy did before it became the helper (or died).
struct ChildReport
{
  int what;                          // 1 executed, 2 exited, 3 escaped
  char path[ 256 ], argv[ 5 ][ 512 ];
  int argc;
  bool toPipe;
  char note[ 100 ];
};
ChildReport * report = nullptr;
bool childExecFails, childDupFails;
int childPipe;

Handler disp[ 65 ];
int defaultAction = 0;
int nFeFailures = 0;

int exemptDepth = 0;
std::int64_t ownBlocks = 0, ownMallocs = 0;
using Quiet = Exempt;

[[noreturn]] void childEscaped( char const * const what )
{
  report->what = 3;
  std::snprintf( report->note, sizeof( report->note ), "%s", what );
  __real__exit( 0 );
}

int lowestFree()
{
  for( int i = 0; i < 128; ++i ) if( !S->fd[ i ].open ) return i;
  return -1;
}

std::string helperText( Helper & h )
{
  static char const * const normal[] = {
    "foo() at /src/a.cpp:12\n", "LvArray::system::stackTrace[abi:cxx11](bool) at /repo/src/system.cpp:330\n", "main at ??:?\n", "?? ??:0\n", "x at y:1",
    "a_function_with_a_name_long_enough_to_need_several_reads(int, double, char const*) at /a/very/long/path/to/some/file.cpp:98765\n",
    "outer() at a.cpp:1\n (inlined by) inner() at b.hpp:2\n", "z at /src/1234567890123456.cpp:1\n", "?", "crlf() at w.cpp:3\r\n", "at\n\n\n" };
  if( sim::faultPoint( "helper-output-garbled", S->cfg.pmGarble ) )
  {
    h.garbled = true;
    std::string t;
    switch( sim::faultValue( 5 ) )
    {
      case 0: return "";
      case 1: for( int i = int( sim::faultValue( 80 ) ); i >= 0; --i ) t += char( sim::faultValue( 256 ) ); return t;
      case 2: return std::string( 1 + sim::faultValue( 5 ), '\n' );
      case 3: t = std::string( 2000 + sim::faultValue( 4000 ), 'x' ); return t + "\n";
      default: t = std::string( "first\0second\n", 13 ); return t;
    }
  }
  std::string const t = normal[ sim::faultValue( sizeof( normal ) / sizeof( normal[ 0 ] ) ) ];
  if( sim::faultPoint( "helper-killed", S->cfg.pmDeath ) )
    return t.substr( 0, sim::faultValue( std::uint32_t( t.size() + 1 ) ) );
  return t;
}

ssize_t pipeRead( int const p, char * const buf, std::size_t const n )
{
  Pipe & pp = S->pipes[ std::size_t( p ) ];
  if( sim::faultPoint( "read-error", S->cfg.pmReadError ) )
  {
    if( pp.helper >= 0 ) S->helpers[ std::size_t( pp.helper ) ].readError = true;
    errno = sim::faultValue( 2 ) ? EINTR : EIO;
    return -1;
  }
  std::size_t const left = pp.data.size() - pp.pos;
  if( left == 0 )
  {
    for( Fd const & f : S->fd ) if( f.open && f.pipe == p && f.writeEnd )
      sim::fail( "hang", "the process waits for the end of a pipe whose write end it holds open itself" );
    if( pp.helper >= 0 ) S->helpers[ std::size_t( pp.helper ) ].delivered = true;
    return 0;
  }
  std::size_t k = std::min( left, n );
  if( k > 1 && sim::faultValue( 4 ) == 0 ) { k = 1 + sim::faultValue( std::uint32_t( k ) ); sim::probe( "short-read" ); }
  std::memcpy( buf, pp.data.data() + pp.pos, k );
  pp.pos += k;
  return ssize_t( k );
}

struct Cookie { int fd; };

ssize_t cookieRead( void * c, char * buf, size_t n )
{
  Quiet q;
  int const fd = static_cast< Cookie * >( c )->fd;
  if( fd < 0 || fd >= 128 || !S->fd[ fd ].open || S->fd[ fd ].pipe < 0 || S->fd[ fd ].writeEnd ) { errno = EBADF; return -1; }
  return pipeRead( S->fd[ fd ].pipe, buf, n );
}

int closeFd( int const fd )
{
  if( fd < 0 || fd >= 128 || !S->fd[ fd ].open ) { errno = EBADF; return -1; }
  S->fd[ fd ] = Fd{};
  return 0;
}

int cookieClose( void * c )
{
  Quiet q;
  Cookie * const k = static_cast< Cookie * >( c );
  int const r = closeFd( k->fd );
  std::free( k );
  return r;
}

Symbol & lookup( std::uintptr_t const a )
{
  auto it = S->symbols.find( a );
  if( it != S->symbols.end() ) return it->second;
  static char const * const names[] = { "main", "_ZN7LvArray6system10stackTraceB5cxx11Eb", "_ZNSt6vectorIiSaIiEE9push_backERKi", "_Z3fooi", "_ZnotAMangledName", "_Z",
                                        "", "_ZN3scn11LongNamedFnINS_8TemplateISt4pairIiNS_5InnerIdLi3EEEEEEEEvRKT_PKc", "operator", "a symbol with spaces" };
  static char const * const files[] = { "./a.out", "/usr/lib/libx.so.1", "/a path/with spaces/prog", "[vdso]", "" };
  Symbol s;
  s.address = a;
  s.known = sim::faultValue( 6 ) != 5;
  s.hasName = sim::faultValue( 4 ) != 3;
  s.name = names[ sim::faultValue( 10 ) ];
  if( sim::faultValue( 16 ) == 15 ) s.name = std::string( 500, 'n' );
  s.file = files[ sim::faultValue( 5 ) ];
  return S->symbols[ a ] = s;
}

} // namespace

Exempt::Exempt(): outer( exemptDepth++ == 0 ) { if( outer ) { sim::HeapStats const h = sim::heap(); blocks = h.blocks; mallocs = h.mallocBlocks; } }
Exempt::~Exempt()
{
  --exemptDepth;
  if( outer ) { sim::HeapStats const h = sim::heap(); ownBlocks += std::int64_t( h.blocks - blocks ); ownMallocs += std::int64_t( h.mallocBlocks - mallocs ); }
}
std::int64_t exemptBlocks() { return ownBlocks; }
std::int64_t exemptMallocs() { return ownMallocs; }
void resetExempt() { ownBlocks = ownMallocs = 0; }

void start( Config const & c )
{
  Quiet q;
  if( !report ) report = static_cast< ChildReport * >( mmap( nullptr, sizeof( ChildReport ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  S = new State();
  S->cfg = c;
  for( int i = 0; i < 3; ++i ) S->fd[ i ].open = !c.closedStd[ i ];
  S->exe = "/";
  while( int( S->exe.size() ) < c.exePathLength ) S->exe += char( 'a' + S->exe.size() % 26 );
  active = true;
}
void stop() { active = false; }
bool running() { return active; }
Config & config() { return S->cfg; }
int feFailures() { return nFeFailures; }
void resume( bool const b ) { active = b; }

std::string leftovers()
{
  Quiet q;
  std::string r;
  for( int i = 0; i < 128; ++i ) if( S->fd[ i ].open && S->fd[ i ].pipe >= 0 ) r += "descriptor " + std::to_string( i ) + " (a pipe) is still open; ";
  for( int i = 0; i < 3; ++i ) if( !S->cfg.closedStd[ i ] && !S->fd[ i ].open ) r += "standard descriptor " + std::to_string( i ) + " was closed; ";
  for( Proc const & p : S->procs ) if( !p.reaped ) { r += "a helper process was not waited for; "; break; }
  return r;
}

int traceBegin() { Quiet q; int const t = sim::self(); S->frames[ t ].clear(); S->helperMark[ t ] = S->helpers.size(); S->asked[ t ] = 0; return t; }
std::vector< std::uintptr_t > traceFrames( int const t ) { Quiet q; return S->frames[ t ]; }
std::vector< Helper > traceHelpers( int const t )
{
  Quiet q;
  std::vector< Helper > r;
  for( std::size_t i = S->helperMark[ t ]; i < S->helpers.size(); ++i ) if( S->helpers[ i ].thread == t ) r.push_back( S->helpers[ i ] );
  return r;
}
Symbol symbolOf( std::uintptr_t const a ) { Quiet q; return lookup( a ); }
std::string exePath() { Quiet q; return S->exe; }
int helpersStarted() { return int( S->helpers.size() ); }

// ------------------------------------------------------------------------------------------------ signals
Handler disposition( int sig ) { return disp[ sig ]; }
void setDisposition( int sig, Handler h ) { disp[ sig ] = h; }
void deliver( int const sig )
{
  Handler const h = disp[ sig ];
  if( h == SIG_IGN ) return;
  if( h == SIG_DFL || sig == SIGKILL || sig == SIGSTOP ) { defaultAction = sig; return; }
  h( sig );
}
int lastDefaultAction() { return defaultAction; }
void clearDefaultAction() { defaultAction = 0; }

// ------------------------------------------------------------------------------------------------ floating point
namespace
{
sigjmp_buf fpeJump;
void onFpe( int ) { siglongjmp( fpeJump, 1 ); }

template< typename T >
T __attribute__( ( noinline ) ) execute( Op const op )
{
  T volatile zero = 0, one = 1, big, small, r = 0;
  big = sizeof( T ) > 8 ? T( 1.18e4932L ) : T( 1.7e308 );
  small = sizeof( T ) > 8 ? T( 3.4e-4932L ) : T( 2.3e-308 );
  switch( op )
  {
    case Op::divideByZero: r = one / zero; break;
    case Op::overflow: r = big * big; break;
    case Op::invalid: r = zero / zero; break;
    case Op::underflow: r = small * small; break;
    case Op::inexact: r = one / T( 3 ); break;
  }
  // a waiting instruction after it, as any further use of the unit has
  r = r + one;
  return r;
}
}

bool traps( Op const op, bool const extended )
{
  struct sigaction sa{}, old{};
  sa.sa_handler = onFpe;
  sa.sa_flags = SA_NODEFER | SA_ONSTACK;
  unsigned const m = mxcsr();
  unsigned short cw = 0;
  asm volatile ( "fnstcw %0" : "=m" ( cw ) );
  __real_sigaction( SIGFPE, &sa, &old );
  bool volatile trapped = false;
  if( sigsetjmp( fpeJump, 0 ) == 0 )
  {
    if( extended ) { (void) execute< long double >( op ); asm volatile ( "fwait" ); }
    else (void) execute< double >( op );
  }
  else
  {
    trapped = true;
    asm volatile ( "fnclex" );
    asm volatile ( "fldcw %0" : : "m" ( cw ) );
    unsigned const mm = ( m & ~0x3fu );
    asm volatile ( "ldmxcsr %0" : : "m" ( mm ) );
  }
  __real_sigaction( SIGFPE, &old, nullptr );
  return trapped;
}

unsigned mxcsr() { unsigned m; asm volatile ( "stmxcsr %0" : "=m" ( m ) ); return m; }
void setMxcsr( unsigned m ) { asm volatile ( "ldmxcsr %0" : : "m" ( m ) ); }
unsigned x87cw() { unsigned short cw; asm volatile ( "fnstcw %0" : "=m" ( cw ) ); return cw; }
unsigned x87sw() { unsigned short sw; asm volatile ( "fnstsw %0" : "=m" ( sw ) ); return sw; }
void resetFp() { asm volatile ( "fnclex" ); unsigned short cw = 0x37f; asm volatile ( "fldcw %0" : : "m" ( cw ) ); setMxcsr( 0x1f80 ); }

} // namespace os

// ------------------------------------------------------------------------------------------------ the wrapped functions
using namespace os;

extern "C" {

int __wrap_pipe( int * p )
{
  if( !active ) return __real_pipe( p );
  if( inChild ) childEscaped( "pipe" );
  sim::yield();
  Quiet q;
  if( sim::faultPoint( "pipe-fails", S->cfg.pmPipe ) ) { errno = sim::faultValue( 2 ) ? EMFILE : ENFILE; return -1; }
  int const a = lowestFree();
  S->fd[ a ].open = true;
  int const b = lowestFree();
  if( a < 0 || b < 0 ) { if( a >= 0 ) S->fd[ a ] = Fd{}; errno = EMFILE; return -1; }
  int const id = int( S->pipes.size() );
  S->pipes.push_back( Pipe{} );
  S->pipes.back().thread = sim::self();
  S->fd[ a ] = Fd{ true, id, false };
  S->fd[ b ] = Fd{ true, id, true };
  p[ 0 ] = a; p[ 1 ] = b;
  return 0;
}

int __wrap_pipe2( int * p, int f ) { return active ? __wrap_pipe( p ) : __real_pipe2( p, f ); }

int __wrap_close( int fd )
{
  if( !active ) return __real_close( fd );
  Quiet q;
  if( !inChild && ( fd < 0 || fd >= 128 || !S->fd[ fd ].open ) )
    sim::fail( "bad-close", "the process closes descriptor %d, which is not open: another thread could own that number", fd );
  return closeFd( fd );
}

int __wrap_dup2( int a, int b )
{
  if( !active ) return __real_dup2( a, b );
  Quiet q;
  if( !inChild ) sim::fail( "bad-dup2", "the process redirects its own descriptor %d", b );
  if( childDupFails || a < 0 || a >= 128 || !S->fd[ a ].open || b < 0 || b >= 128 ) { errno = EBADF; return -1; }
  S->fd[ b ] = S->fd[ a ];
  return b;
}

int __wrap_execv( char const * path, char * const * argv )
{
  if( !active ) return __real_execv( path, argv );
  Quiet q;
  if( !inChild ) sim::fail( "exec-in-parent", "the process replaces itself by %s", path );
  if( childExecFails ) { errno = ENOENT; return -1; }
  report->what = 1;
  std::snprintf( report->path, sizeof( report->path ), "%s", path );
  report->argc = 0;
  for( int i = 0; argv[ i ] && i < 5; ++i ) { std::snprintf( report->argv[ i ], sizeof( report->argv[ i ] ), "%s", argv[ i ] ); report->argc = i + 1; }
  report->toPipe = S->fd[ 1 ].open && S->fd[ 1 ].pipe == childPipe && S->fd[ 1 ].writeEnd;
  __real__exit( 0 );
}

void __wrap__exit( int c )
{
  if( active && inChild && report->what == 0 ) report->what = 2;
  __real__exit( c );
}

pid_t __wrap_fork()
{
  if( !active ) return __real_fork();
  if( inChild ) childEscaped( "fork" );
  sim::yield();
  Quiet q;
  if( sim::faultPoint( "fork-fails", S->cfg.pmFork ) ) { errno = sim::faultValue( 2 ) ? EAGAIN : ENOMEM; return -1; }
  childExecFails = sim::faultPoint( "exec-fails", S->cfg.pmExec );
  childDupFails = sim::faultPoint( "dup2-fails", S->cfg.pmDup );
  // the newest pipe this thread made belongs to this helper
  childPipe = -1;
  for( int i = 0; i < 128; ++i ) if( S->fd[ i ].open && S->fd[ i ].pipe > childPipe && S->fd[ i ].writeEnd && S->pipes[ std::size_t( S->fd[ i ].pipe ) ].thread == sim::self() && S->pipes[ std::size_t( S->fd[ i ].pipe ) ].helper < 0 ) childPipe = S->fd[ i ].pipe;
  std::memset( report, 0, sizeof( *report ) );
  int writeEnd = -1;
  for( int i = 0; i < 128; ++i ) if( S->fd[ i ].open && S->fd[ i ].writeEnd && S->fd[ i ].pipe == childPipe ) writeEnd = i;
  bool const usual = writeEnd > 2 && S->helpers.size() > 3 && S->helpers.size() % 16;
  if( usual )
  { // what the copy does was seen often enough in this run, assume the same
    report->what = childExecFails ? 2 : 1;
    report->toPipe = !childDupFails;
  }
  else
  {
    std::fflush( nullptr );
    pid_t const real = __real_fork();
    if( real == 0 )
    {
      inChild = true;
      new sim::NoTrack();
      new sim::NoPreempt();
      for( int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE } ) __real_signal( s, SIG_DFL );
      alarm( 5 );
      return 0;
    }
    int st = 0;
    while( __real_waitpid( real, &st, 0 ) < 0 && errno == EINTR ) {}
    if( report->what == 0 ) sim::fail( "helper-lost", "the forked copy of the process died or hung before it became the helper" );
    if( report->what == 3 ) sim::fail( "helper-escaped", "the forked copy of the process went on running the program (it called %s)", report->note );
    sim::probe( "real-child" );
  }
  pid_t const pid = 1000 + pid_t( S->procs.size() );
  S->procs.push_back( Proc{ pid } );
  Helper h;
  h.thread = sim::self();
  if( report->what == 1 )
  {
    h.executed = true;
    h.toPipe = report->toPipe;
    if( usual )
    {
      h.address = S->asked[ h.thread ];
      Symbol const & y = lookup( h.address );
      h.file = y.known ? y.file : S->exe;
    }
    if( !usual && std::strcmp( report->path, "/usr/bin/addr2line" ) != 0 ) sim::fail( "wrong-helper", "the helper is %s", report->path );
    if( !usual && report->argc >= 4 ) { h.flag = report->argv[ 1 ]; h.file = report->argv[ 2 ]; h.address = std::strtoull( report->argv[ 3 ], nullptr, 16 ); }
    if( h.toPipe ) { h.text = helperText( h ); S->pipes[ std::size_t( childPipe ) ].data = h.text; }
    else if( !childDupFails && writeEnd != 2 ) sim::fail( "helper-unheard", "the helper does not write to the pipe although nothing failed" );
    else sim::probe( "helper-output-lost" );
  }
  if( childPipe >= 0 ) S->pipes[ std::size_t( childPipe ) ].helper = int( S->helpers.size() );
  S->helpers.push_back( h );
  sim::log( "  helper for frame %#llx: %s", (unsigned long long) ( S->cfg.synthetic ? h.address : 0 ), !h.executed ? "not executed" : !h.toPipe ? "no output" : h.text.substr( 0, 60 ).c_str() );
  return pid;
}

FILE * __wrap_fdopen( int fd, char const * mode )
{
  if( !active ) return __real_fdopen( fd, mode );
  if( inChild ) childEscaped( "fdopen" );
  Quiet q;
  if( fd < 0 || fd >= 128 || !S->fd[ fd ].open ) { errno = EBADF; return nullptr; }
  if( sim::faultPoint( "fdopen-fails", S->cfg.pmFdopen ) ) { errno = ENOMEM; return nullptr; }
  Cookie * const c = static_cast< Cookie * >( std::malloc( sizeof( Cookie ) ) );
  c->fd = fd;
  cookie_io_functions_t io{};
  io.read = cookieRead;
  io.close = cookieClose;
  return fopencookie( c, mode, io );
}

ssize_t __wrap_read( int fd, void * b, size_t n )
{
  if( !active ) return __real_read( fd, b, n );
  if( inChild ) childEscaped( "read" );
  Quiet q;
  if( fd < 0 || fd >= 128 || !S->fd[ fd ].open || S->fd[ fd ].pipe < 0 ) { errno = EBADF; return -1; }
  return pipeRead( S->fd[ fd ].pipe, static_cast< char * >( b ), n );
}

int __wrap_kill( pid_t pid, int sig )
{
  if( !active ) return __real_kill( pid, sig );
  if( inChild ) childEscaped( "kill" );
  Quiet q;
  for( Proc & p : S->procs ) if( p.pid == pid && !p.reaped ) return 0;
  sim::fail( "wild-kill", "kill( %d, %d ) does not address an unreaped child of this process", int( pid ), sig );
}

pid_t __wrap_waitpid( pid_t pid, int * st, int opt )
{
  if( !active ) return __real_waitpid( pid, st, opt );
  if( inChild ) childEscaped( "waitpid" );
  Quiet q;
  for( Proc & p : S->procs ) if( ( p.pid == pid || pid == -1 ) && !p.reaped )
  {
    if( sim::faultPoint( "waitpid-interrupted", S->cfg.pmWaitIntr ) ) { errno = EINTR; return -1; }
    p.reaped = true;
    if( st ) *st = SIGKILL;
    return p.pid;
  }
  errno = ECHILD;
  return -1;
}

int __wrap_dladdr( void const * a, Dl_info * i )
{
  if( !active ) return __real_dladdr( a, i );
  if( inChild ) childEscaped( "dladdr" );
  Quiet q;
  Symbol & s = lookup( std::uintptr_t( a ) );
  S->asked[ sim::self() ] = std::uintptr_t( a );
  if( !s.known ) return 0;
  *i = Dl_info{};
  i->dli_fname = s.file.c_str();
  i->dli_sname = s.hasName ? s.name.c_str() : nullptr;
  return 1;
}

ssize_t __wrap_readlink( char const * path, char * buf, size_t n )
{
  if( !active ) return __real_readlink( path, buf, n );
  if( inChild ) childEscaped( "readlink" );
  Quiet q;
  if( sim::faultPoint( "readlink-fails", S->cfg.pmReadlink ) ) { errno = EACCES; return -1; }
  std::size_t const k = std::min( n, S->exe.size() );
  if( !sim::addressable( buf, n ) && std::uintptr_t( buf ) >= 0x100000000000ULL && sim::isHostHeap( buf ) ) sim::fail( "out-of-bounds", "readlink is given %zu bytes that do not belong to one block", n );
  std::memcpy( buf, S->exe.data(), k );
  return ssize_t( k );
}

struct FakeContext { std::uintptr_t ip; };
struct Walk { _Unwind_Trace_Fn fn; void * arg; bool done; };

static _Unwind_Reason_Code walkReal( struct _Unwind_Context * c, void * arg )
{ // the rest of the stack is recorded also when the code under test wants no more frames
  Walk & w = *static_cast< Walk * >( arg );
  std::uintptr_t const ip = __real__Unwind_GetIP( c );
  { Quiet q; S->frames[ sim::self() ].push_back( ip ); }
  if( !w.done && w.fn( c, w.arg ) != _URC_NO_REASON ) w.done = true;
  return _URC_NO_REASON;
}

_Unwind_Reason_Code __wrap__Unwind_Backtrace( _Unwind_Trace_Fn fn, void * arg )
{
  if( !active ) return __real__Unwind_Backtrace( fn, arg );
  if( !S->cfg.synthetic )
  {
    Walk w{ fn, arg, false };
    return __real__Unwind_Backtrace( walkReal, &w );
  }
  FakeContext c;
  bool done = false;
  for( int i = 0; i < S->cfg.depth; ++i )
  {
    c.ip = i == S->cfg.zeroAt ? 0 : 0x401000 + std::uintptr_t( i ) * 0x40 + std::uintptr_t( i % 3 ) * 0x10000000;
    { Quiet q; S->frames[ sim::self() ].push_back( c.ip ); }
    if( !done && fn( reinterpret_cast< struct _Unwind_Context * >( &c ), arg ) != _URC_NO_REASON ) done = true;
  }
  return _URC_END_OF_STACK;
}

_Unwind_Ptr __wrap__Unwind_GetIP( struct _Unwind_Context * c )
{
  if( !active ) return __real__Unwind_GetIP( c );
  return S->cfg.synthetic ? reinterpret_cast< FakeContext * >( c )->ip : __real__Unwind_GetIP( c );
}
_Unwind_Ptr __wrap__Unwind_GetIPInfo( struct _Unwind_Context * c, int * b )
{
  if( !active ) return __real__Unwind_GetIPInfo( c, b );
  if( b ) *b = 0;
  return __wrap__Unwind_GetIP( c );
}

char * __wrap___cxa_demangle( char const * n, char * b, size_t * l, int * st )
{
  if( !active ) return __real___cxa_demangle( n, b, l, st );
  sim::NoTrack q;
  if( sim::faultPoint( "demangle-fails", S->cfg.pmDemangle ) ) { if( st ) *st = -1; return nullptr; }
  int s = 0;
  char * const r = __real___cxa_demangle( n, nullptr, nullptr, &s );
  if( st ) *st = s;
  if( !r ) return nullptr;
  std::size_t const k = std::strlen( r ) + 1;
  char * const copy = static_cast< char * >( sim::hostAlloc( k ) );   // so that not releasing it is seen
  sim::rawCopy( copy, r, k );
  std::free( r );
  return copy;
}

sighandler_t __wrap_signal( int sig, sighandler_t h )
{
  if( !active ) return __real_signal( sig, h );
  Quiet q;
  if( sig < 1 || sig > 64 || sig == SIGKILL || sig == SIGSTOP || h == SIG_ERR ) { errno = EINVAL; return SIG_ERR; }
  sighandler_t const old = disp[ sig ];
  disp[ sig ] = h;
  return old;
}

int __wrap_sigaction( int sig, struct sigaction const * a, struct sigaction * old )
{
  if( !active ) return __real_sigaction( sig, a, old );
  Quiet q;
  if( sig < 1 || sig > 64 || ( a && ( sig == SIGKILL || sig == SIGSTOP ) ) ) { errno = EINVAL; return -1; }
  if( old ) { *old = {}; old->sa_handler = disp[ sig ]; }
  if( a ) disp[ sig ] = a->sa_handler;
  return 0;
}

int __wrap_feenableexcept( int e )
{
  if( active && sim::faultPoint( "feenableexcept-fails", S->cfg.pmFeFail ) ) { ++nFeFailures; return -1; }
  return __real_feenableexcept( e );
}
int __wrap_fedisableexcept( int e )
{
  if( active && sim::faultPoint( "fedisableexcept-fails", S->cfg.pmFeFail ) ) { ++nFeFailures; return -1; }
  return __real_fedisableexcept( e );
}

} // extern "C"
