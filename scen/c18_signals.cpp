// C18: signal handlers and floating point settings are restored as documented.
#include "sim.hpp"
#include "os_model.hpp"
#include "Macros.hpp"
#include "system.hpp"

#include <cfloat>
#include <csignal>
#include <cstring>
#include <fenv.h>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <vector>

using namespace LvArray;

namespace
{

struct Stop {};

int const HANDLED[] = { SIGHUP, SIGINT, SIGQUIT, SIGILL, SIGTRAP, SIGABRT, SIGPOLL, SIGFPE, SIGBUS, SIGSEGV, SIGSYS, SIGPIPE, SIGTERM };
bool isHandled( int const sig ) { for( int h : HANDLED ) if( h == sig ) return true; return false; }

// ------------------------------------------------------------------ the handlers of the application
int ranHandler, ranSignal;
template< int N > void handler( int const sig ) { ranHandler = N; ranSignal = sig; }
void tracing( int const sig ) { ranHandler = 10; ranSignal = sig; system::stackTraceHandler( sig, false ); }
void fatal( int const sig ) { ranHandler = 11; ranSignal = sig; system::stackTraceHandler( sig, true ); }
os::Handler const HANDLERS[] = { SIG_DFL, SIG_IGN, handler< 2 >, handler< 3 >, handler< 4 >, handler< 5 >, handler< 6 >, handler< 7 >, handler< 8 >, handler< 9 >, tracing, fatal };
int idOf( os::Handler const h ) { for( int i = 0; i < 12; ++i ) if( HANDLERS[ i ] == h ) return i; return -1; }

bool defaultedInHandler;             // all handled signals had their default action when the error handler ran
int errorCalls;

struct Signals
{
  int now[ 65 ];                     // handler ids
  int saved[ 65 ];
  bool installed = false, dirty = false;

  void begin()
  {
    for( int s = 1; s <= 31; ++s )
    {
      int const k = sim::chance( 1, 2 ) ? int( sim::draw( 10 ) ) : 0;
      now[ s ] = k;
      os::setDisposition( s, HANDLERS[ k ] );
    }
    now[ SIGKILL ] = now[ SIGSTOP ] = 0;
    os::setDisposition( SIGKILL, SIG_DFL ); os::setDisposition( SIGSTOP, SIG_DFL );
  }

  void verify( char const * const after )
  {
    for( int s = 1; s <= 31; ++s )
      SIM_CHECK( os::disposition( s ) == HANDLERS[ now[ s ] ], "wrong-handler", "after %s signal %d (%s) has handler %d instead of %d", after, s,
                 isHandled( s ) ? "handled by the library" : "not handled by the library", idOf( os::disposition( s ) ), now[ s ] );
  }

  void install( int const k )
  {
    if( !installed ) for( int s : HANDLED ) saved[ s ] = now[ s ];
    installed = true;
    for( int s : HANDLED ) now[ s ] = k;
  }

  void step()
  {
    switch( sim::draw( 5 ) )
    {
      case 0:
      {
        int const k = int( sim::draw( 12 ) );
        sim::log( "setSignalHandling( handler %d )", k );
        if( installed ) sim::probe( "installed-again" );
        system::setSignalHandling( HANDLERS[ k ] );
        install( k );
        verify( "setSignalHandling" );
        break;
      }
      case 1:
        if( !installed && dirty ) break;
        sim::log( "resetSignalHandling" );
        system::resetSignalHandling();
        if( installed ) { for( int s : HANDLED ) now[ s ] = saved[ s ]; sim::probe( "restored" ); sim::probe( "nontrivial" ); }
        installed = false;
        dirty = false;
        verify( "resetSignalHandling" );
        break;
      case 2:
      { // the application changes a handler itself
        int const s = sim::range( 1, 31 );
        int const k = int( sim::draw( 10 ) );
        if( s == SIGKILL || s == SIGSTOP ) break;
        sim::log( "the application installs handler %d for signal %d", k, s );
        os::setDisposition( s, HANDLERS[ k ] );
        now[ s ] = k;
        if( !installed ) dirty = true;
        break;
      }
      default:
      {
        int const s = sim::chance( 3, 4 ) ? HANDLED[ sim::draw( sizeof( HANDLED ) / sizeof( int ) ) ] : sim::range( 1, 31 );
        sim::log( "signal %d arrives", s );
        ranHandler = ranSignal = -1;
        errorCalls = 0;
        defaultedInHandler = false;
        os::clearDefaultAction();
        sim::takeOutput();
        bool stopped = false;
        int raised = 0;
        if( s == SIGFPE )
        { // what the floating point unit reports when the signal arrives
          int const flags[] = { FE_DIVBYZERO, FE_INEXACT, FE_INVALID, FE_OVERFLOW, FE_UNDERFLOW };
          feclearexcept( FE_ALL_EXCEPT );
          for( int const f : flags ) if( sim::chance( 1, 3 ) ) feraiseexcept( f );
          raised = fetestexcept( FE_ALL_EXCEPT );
          sim::log( "  with %#x raised", unsigned( raised ) );
        }
        try { os::deliver( s ); }
        catch( Stop const & ) { stopped = true; }
        std::string const text = sim::takeOutput();
        int const k = now[ s ];
        if( k == 0 ) SIM_CHECK( os::lastDefaultAction() == s && ranHandler == -1, "wrong-handler", "signal %d did not take its default action", s );
        else if( k == 1 ) SIM_CHECK( os::lastDefaultAction() == 0 && ranHandler == -1, "wrong-handler", "signal %d was not ignored", s );
        else SIM_CHECK( ranHandler == k && ranSignal == s, "wrong-handler", "signal %d ran handler %d with %d, handler %d is installed", s, ranHandler, ranSignal, k );
        if( k >= 10 )
        {
          sim::probe( "traced-signal" );
          sim::NoTrack q;
          SIM_CHECK( text.find( "signal " + std::to_string( s ) + ":" ) != std::string::npos && text.find( strsignal( s ) ) != std::string::npos, "bad-report", "signal %d is reported as %s", s, text.c_str() );
          SIM_CHECK( text.find( "StackTrace" ) != std::string::npos, "bad-report", "there is no stack trace in %s", text.c_str() );
          if( s == SIGFPE )
          {
            std::string const head = text.substr( 0, text.find( "StackTrace" ) );
            std::pair< int, char const * > const names[] = { { FE_DIVBYZERO, "Division by zero" }, { FE_INEXACT, "Inexact" }, { FE_INVALID, "Invalid" }, { FE_OVERFLOW, "Overflow" }, { FE_UNDERFLOW, "Underflow" } };
            for( auto const & n : names )
              SIM_CHECK( ( head.find( n.second ) != std::string::npos ) == ( ( raised & n.first ) != 0 ), "bad-report", "a floating point exception with the flags %#x is reported as %s", unsigned( raised ), head.c_str() );
            sim::probe( "floating-point-signal" );
          }
        }
        SIM_CHECK( stopped == ( k == 11 ) && errorCalls == ( k == 11 ? 1 : 0 ), "wrong-handler", "handler %d of signal %d called the error handler %d times", k, s, errorCalls );
        if( k == 11 )
        {
          SIM_CHECK( defaultedInHandler, "recursive-handler", "the error handler ran while a handler that reports fatal signals was still installed" );
          install( 0 );
          sim::probe( "fatal-signal" );
        }
        verify( "a signal" );
      }
    }
  }
};

// ------------------------------------------------------------------ the floating point unit
int const BITS[] = { FE_DIVBYZERO, FE_OVERFLOW, FE_INVALID, FE_UNDERFLOW };

struct Fp
{
  int mask = 0;                      // exceptions that trap
  unsigned control = 0x1f80 & ~0x1f80u;   // flush to zero and friends
  unsigned rounding = 0;
  bool allowExtended = true, allowFaults = true;
  int depth = 0;

  static int drawMask()
  {
    int m = 0;
    for( int b : BITS ) if( sim::draw( 2 ) ) m |= b;
    return m;
  }

  void verify( char const * const after )
  {
    unsigned const m = os::mxcsr();
    int const got = fegetexcept();
    SIM_CHECK( got == mask, "wrong-traps", "after %s the exceptions %#x trap instead of %#x", after, unsigned( got ), unsigned( mask ) );
    int const sse = int( ~( m >> 7 ) & 0x3d );
    SIM_CHECK( sse == mask, "wrong-traps", "after %s the vector unit traps on %#x instead of %#x", after, unsigned( sse ), unsigned( mask ) );
    SIM_CHECK( ( m & 0xe040 ) == control, "wrong-control", "after %s the other settings of the vector unit are %#x instead of %#x", after, m & 0xe040, control );
    SIM_CHECK( ( os::x87cw() & 0xf00 ) == ( 0x300 | rounding ), "wrong-control", "after %s the precision and rounding of the extended unit changed to %#x", after, os::x87cw() & 0xf00 );
  }

  void arithmetic()
  {
    os::Op const ops[] = { os::Op::divideByZero, os::Op::overflow, os::Op::invalid, os::Op::underflow, os::Op::inexact };
    int const raises[] = { FE_DIVBYZERO, FE_OVERFLOW, FE_INVALID, FE_UNDERFLOW, 0 };
    int const k = int( sim::draw( 5 ) );
    bool const extended = allowExtended && sim::chance( 1, 2 );
    sim::log( "operation %d in %s precision", k, extended ? "extended" : "double" );
    bool const trapped = os::traps( ops[ k ], extended );
    SIM_CHECK( trapped == ( ( mask & raises[ k ] ) != 0 ), "wrong-trap", "operation %d in %s precision %s although the exceptions %#x trap", k, extended ? "extended" : "double", trapped ? "traps" : "does not trap", unsigned( mask ) );
    if( trapped ) sim::probe( "trapped" );
    else if( k < 4 ) sim::probe( "raised-without-trap" );
    sim::probe( "nontrivial" );
  }

  void step()
  {
    if( !allowFaults ) sim::yield();
    switch( sim::draw( 7 ) )
    {
      case 0:
      {
        int const m = drawMask();
        sim::log( "enableFloatingPointExceptions( %#x )", unsigned( m ) );
        int const before = os::feFailures();
        int r = -2;
        if( allowFaults ) { os::config().pmFeFail = sim::chance( 1, 8 ) ? 1000 : 0; errorCalls = 0; }
        try { r = system::enableFloatingPointExceptions( m ); } catch( Stop const & ) {}
        if( allowFaults ) os::config().pmFeFail = 0;
        if( os::feFailures() != before ) { SIM_CHECK( errorCalls > 0 && r == -2, "check-not-enforced", "a failure to set the floating point unit was not reported" ); sim::probe( "refused" ); return; }
        SIM_CHECK( r == mask, "wrong-previous", "enabling returned %#x as the previous setting instead of %#x", unsigned( r ), unsigned( mask ) );
        mask |= m;
        verify( "enabling" );
        break;
      }
      case 1:
      {
        int const m = drawMask();
        sim::log( "disableFloatingPointExceptions( %#x )", unsigned( m ) );
        int const before = os::feFailures();
        int r = -2;
        if( allowFaults ) { os::config().pmFeFail = sim::chance( 1, 8 ) ? 1000 : 0; errorCalls = 0; }
        try { r = system::disableFloatingPointExceptions( m ); } catch( Stop const & ) {}
        if( allowFaults ) os::config().pmFeFail = 0;
        if( os::feFailures() != before ) { SIM_CHECK( errorCalls > 0 && r == -2, "check-not-enforced", "a failure to set the floating point unit was not reported" ); return; }
        SIM_CHECK( r == mask, "wrong-previous", "disabling returned %#x as the previous setting instead of %#x", unsigned( r ), unsigned( mask ) );
        mask &= ~m;
        verify( "disabling" );
        break;
      }
      case 2:
        if( sim::chance( 1, 2 ) ) { arithmetic(); break; }
        sim::log( "setFPE" );
        system::setFPE();
        mask |= FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID;
        control |= 0x8040;
        SIM_CHECK( system::getDefaultFloatingPointExceptions() == ( FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID ), "wrong-traps", "the default exceptions are %#x", unsigned( system::getDefaultFloatingPointExceptions() ) );
        verify( "setFPE" );
        sim::probe( "set-fpe" );
        break;
      case 3:
      {
        if( depth > 4 ) break;
        bool const standard = sim::chance( 1, 3 );
        int const m = standard ? int( FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID ) : drawMask();
        sim::log( "enter a scope without %#x", unsigned( m ) );
        int const outer = mask;
        ++depth;
        auto const body = [ & ]()
        {
          mask &= ~m;
          verify( "entering a scope" );
          while( sim::more( 3 ) ) step();
        };
        try
        {
          if( standard ) { system::FloatingPointExceptionGuard guard; body(); sim::log( "leave the scope" ); if( sim::chance( 1, 8 ) ) { sim::probe( "left-by-exception" ); throw Stop{}; } }
          else { system::FloatingPointExceptionGuard guard( m ); body(); sim::log( "leave the scope" ); if( sim::chance( 1, 8 ) ) { sim::probe( "left-by-exception" ); throw Stop{}; } }
        }
        catch( Stop const & ) {}
        --depth;
        // everything that trapped on entry traps again; what was enabled inside the scope stays
        mask |= outer;
        verify( "leaving a scope" );
        sim::probe( depth ? "nested-scope" : "scope" );
        break;
      }
      default: arithmetic();
    }
  }
};

} // namespace

void scenarioWarmup() {}

void scenario()
{
  os::Config c;
  c.synthetic = true;
  c.depth = sim::range( 0, 30 );
  os::start( c );
  sim::setFaultsEnabled( true );
  os::resetFp();
  feclearexcept( FE_ALL_EXCEPT );
  system::setErrorHandler( []()
  {
    ++errorCalls;
    defaultedInHandler = true;
    for( int s : HANDLED ) if( os::disposition( s ) != SIG_DFL ) defaultedInHandler = false;
    throw Stop{};
  } );
  switch( sim::draw( 3 ) )
  {
    case 0:
    {
      Signals s;
      s.begin();
      while( sim::more( 12 ) ) s.step();
      break;
    }
    case 1:
    {
      Fp f;
      int const modes[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
      int const mode = modes[ sim::chance( 1, 4 ) ? sim::draw( 4 ) : 0 ];
      fesetround( mode );
      f.control = unsigned( mode ) << 3;
      f.rounding = unsigned( mode );
      f.verify( "the start" );
      while( sim::more( 14 ) ) f.step();
      break;
    }
    default:
    { // several threads, each with its own unit
      sim::probe( "several-callers" );
      int const n = sim::range( 2, 3 );
      sim::parallel( n, []( int )
      {
        os::resetFp();
        Fp f;
        f.allowExtended = f.allowFaults = false;
        while( sim::more( 8 ) ) f.step();
        os::resetFp();
      } );
    }
  }
  os::resetFp();
}
