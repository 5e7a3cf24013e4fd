// C17: error reports and stack traces survive a failing environment.
#include "sim.hpp"
#include "os_model.hpp"
#include "Macros.hpp"
#include "system.hpp"

#include <cmath>
#include <csignal>
#include <cstring>
#include <cxxabi.h>
#include <fenv.h>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <vector>

namespace
{

/// Check one trace: the frames of the stack, in order, with the locations the helpers delivered.
/// The trace starts after at most a few internal frames and ends with the 25th frame or the stack.
void checkTrace( int const thread, std::string const & text, bool const location, os::Config const & cfg )
{
  os::Exempt q;
  std::vector< std::uintptr_t > stack = os::traceFrames( thread );
  std::vector< os::Helper > const helpers = os::traceHelpers( thread );
  for( std::size_t i = 0; i < stack.size(); ++i ) if( stack[ i ] == 0 ) { stack.resize( i ); break; }
  std::size_t const at = text.find( "StackTrace" );
  SIM_CHECK( at != std::string::npos, "no-trace", "there is no stack trace in: %s", text.c_str() );
  // the names of the frames
  std::vector< std::string > lines;
  std::size_t pos = at;
  int n = 0;
  while( true )
  {
    std::string const key = "\nFrame " + std::to_string( n ) + ": ";
    std::size_t const b = text.find( key, pos );
    if( b == std::string::npos ) break;
    pos = b + key.size();
    std::string const next = "\nFrame " + std::to_string( n + 1 ) + ": ";
    std::size_t e = text.find( next, pos );
    if( e == std::string::npos ) e = text.find( "\n=====", pos );
    if( e == std::string::npos ) // a helper that answered with a zero byte ends the text of an exception
      for( os::Helper const & h : helpers ) if( h.garbled && h.text.find( '\0' ) != std::string::npos ) return;
    SIM_CHECK( e != std::string::npos, "bad-trace", "the trace ends in the middle of frame %d", n );
    lines.push_back( text.substr( pos, e - pos ) );
    ++n;
  }
  SIM_CHECK( lines.size() <= 25, "bad-trace", "the trace lists %zu frames", lines.size() );
  if( lines.size() == 25 ) sim::probe( "trace-of-25-frames" );
  if( lines.empty() ) sim::probe( "empty-trace" );

  bool matched = false;
  std::string why = "no frame is listed";
  for( std::size_t skip = 0; skip <= 4 && !matched; ++skip )
  {
    std::size_t const rest = stack.size() > skip ? stack.size() - skip : 0;
    if( lines.size() != std::min< std::size_t >( rest, 25 ) ) continue;
    bool ok = true;
    std::string const best = why;
    for( std::size_t i = 0; i < lines.size() && ok; ++i )
    {
      os::Symbol const s = os::symbolOf( stack[ skip + i ] );
      std::string expect = s.known ? ( s.hasName ? s.name : s.file ) : "Unknown";
      bool starts = lines[ i ].compare( 0, expect.size(), expect ) == 0;
      if( s.known && s.hasName )
      {
        int st = -4;
        bool const was = os::running();
        if( was ) os::stop();
        char * const d = abi::__cxa_demangle( s.name.c_str(), nullptr, nullptr, &st );
        os::resume( was );
        if( st == 0 ) { bool const full = lines[ i ].compare( 0, std::strlen( d ), d ) == 0; starts = full || ( starts && cfg.pmDemangle ); expect = full || !starts ? d : expect; std::free( d ); }
      }
      if( !starts ) { ok = false; why = "frame " + std::to_string( i ) + " is '" + lines[ i ] + "', expected '" + expect + "'"; }
      // nothing but what a helper said about this frame follows its name
      std::size_t longest = 0;
      for( os::Helper const & h : helpers ) if( h.executed && h.address == stack[ skip + i ] ) longest = std::max( longest, h.text.size() );
      if( ok && lines[ i ].size() > expect.size() + longest + 8 )
      { ok = false; why = "frame " + std::to_string( i ) + " is '" + lines[ i ] + "', which is more than its name and what the helpers reported"; }
      // its source location
      for( os::Helper const & h : helpers )
        if( ok && location && h.executed && h.address == stack[ skip + i ] && h.toPipe && !h.garbled && !h.readError && h.delivered )
        {
          std::string t = h.text;
          while( !t.empty() && ( t.back() == '\n' || t.back() == '\r' ) ) t.pop_back();
          if( t.empty() || t[ 0 ] == '?' ) continue;
          sim::probe( "located-frame" );
          bool shown = lines[ i ].find( t, expect.size() ? 1 : 0 ) != std::string::npos;
          for( std::size_t j = 0; j < lines.size() && !shown; ++j )   // a recursive function has several frames
            shown = j != i && stack[ skip + j ] == stack[ skip + i ] && lines[ j ].find( t, 1 ) != std::string::npos;
          if( !shown )
          { ok = false; why = "frame " + std::to_string( i ) + " is '" + lines[ i ] + "' but its source location was reported as '" + t + "'"; }
          if( !s.known )
          { if( h.file != os::exePath() ) { ok = false; why = "the helper was asked about '" + h.file + "' instead of the running executable '" + os::exePath() + "'"; } else sim::probe( "path-of-executable" ); }
          else if( h.file != s.file.substr( 0, 511 ) ) { ok = false; why = "the helper was asked about '" + h.file + "' instead of '" + s.file + "'"; }
        }
    }
    matched = ok;
    if( skip > 2 ) why = best;
  }
  SIM_CHECK( matched, "bad-trace", "the trace does not show the %zu frames of the stack: %s", stack.size(), why.c_str() );
  if( location && !helpers.empty() ) sim::probe( "helpers-started" );
}

void checkClean()
{
  std::string const l = os::leftovers();
  SIM_CHECK( l.empty(), "left-behind", "after the report: %s", l.c_str() );
}

void __attribute__( ( noinline ) ) deeper( int const n, std::function< void() > const & f )
{
  if( n == 0 ) { f(); return; }
  deeper( n - 1, f );
  asm volatile ( "" );
}

struct Stop { int handler; };

/// Everything a macro can do.
enum class Outcome { nothing, error, thrownRuntime, thrownCustom, printed };

struct Custom : std::runtime_error { using std::runtime_error::runtime_error; };

int g_line;
#define HERE( X ) do { g_line = __LINE__; X; } while( false )

/// Execute one of the checks on the operands; returns whether its condition is true and what it then has to do.
template< typename T, typename U >
bool check( int const which, T const a, U const b, std::string const & msg, Outcome & then, bool & withMsg, bool & withValues )
{
  withMsg = true;
  withValues = true;
  then = Outcome::error;
  switch( which )
  {
    case 0: withValues = false; { bool const c = a == b; HERE( LVARRAY_ERROR_IF( c, "MSG " << msg ) ); return c; }
    case 1: HERE( LVARRAY_ERROR_IF_EQ( a, b ) ); withMsg = false; return a == b;
    case 2: HERE( LVARRAY_ERROR_IF_NE( a, b ) ); withMsg = false; return a != b;
    case 3: HERE( LVARRAY_ERROR_IF_GT( a, b ) ); withMsg = false; return a > b;
    case 4: HERE( LVARRAY_ERROR_IF_GE( a, b ) ); withMsg = false; return a >= b;
    case 5: HERE( LVARRAY_ERROR_IF_LT( a, b ) ); withMsg = false; return a < b;
    case 6: HERE( LVARRAY_ERROR_IF_LE( a, b ) ); withMsg = false; return a <= b;
    case 7: HERE( LVARRAY_ERROR_IF_EQ_MSG( a, b, "MSG " << msg ) ); return a == b;
    case 8: HERE( LVARRAY_ERROR_IF_NE_MSG( a, b, "MSG " << msg ) ); return a != b;
    case 9: HERE( LVARRAY_ERROR_IF_GT_MSG( a, b, "MSG " << msg ) ); return a > b;
    case 10: HERE( LVARRAY_ERROR_IF_GE_MSG( a, b, "MSG " << msg ) ); return a >= b;
    case 11: HERE( LVARRAY_ERROR_IF_LT_MSG( a, b, "MSG " << msg ) ); return a < b;
    case 12: HERE( LVARRAY_ERROR_IF_LE_MSG( a, b, "MSG " << msg ) ); return a <= b;
  }
  then = Outcome::thrownCustom;
  switch( which )
  {
    case 13: withValues = false; { bool const c = a < b; HERE( LVARRAY_THROW_IF( c, "MSG " << msg, Custom ) ); return c; }
    case 14: HERE( LVARRAY_THROW_IF_EQ( a, b, Custom ) ); withMsg = false; return a == b;
    case 15: HERE( LVARRAY_THROW_IF_NE( a, b, Custom ) ); withMsg = false; return a != b;
    case 16: HERE( LVARRAY_THROW_IF_GT( a, b, Custom ) ); withMsg = false; return a > b;
    case 17: HERE( LVARRAY_THROW_IF_GE( a, b, Custom ) ); withMsg = false; return a >= b;
    case 18: HERE( LVARRAY_THROW_IF_LT( a, b, Custom ) ); withMsg = false; return a < b;
    case 19: HERE( LVARRAY_THROW_IF_LE( a, b, Custom ) ); withMsg = false; return a <= b;
    case 20: HERE( LVARRAY_THROW_IF_EQ_MSG( a, b, "MSG " << msg, Custom ) ); return a == b;
    case 21: HERE( LVARRAY_THROW_IF_NE_MSG( a, b, "MSG " << msg, Custom ) ); return a != b;
    case 22: HERE( LVARRAY_THROW_IF_GT_MSG( a, b, "MSG " << msg, Custom ) ); return a > b;
    case 23: HERE( LVARRAY_THROW_IF_GE_MSG( a, b, "MSG " << msg, Custom ) ); return a >= b;
    case 24: HERE( LVARRAY_THROW_IF_LT_MSG( a, b, "MSG " << msg, Custom ) ); return a < b;
    case 25: HERE( LVARRAY_THROW_IF_LE_MSG( a, b, "MSG " << msg, Custom ) ); return a <= b;
  }
  then = Outcome::printed;
  withValues = false;
  switch( which )
  {
    case 26: { bool const c = a == b; HERE( LVARRAY_WARNING_IF( c, "MSG " << msg ) ); return c; }
    case 27: { bool const c = a < b; HERE( LVARRAY_INFO_IF( c, "MSG " << msg ) ); return c; }
    case 28: HERE( LVARRAY_WARNING( "MSG " << msg ) ); return true;
    case 29: HERE( LVARRAY_INFO( "MSG " << msg ) ); return true;
  }
  then = Outcome::error;
  if( which == 30 ) { HERE( LVARRAY_ERROR( "MSG " << msg ) ); return true; }
#if defined( NDEBUG )
  bool const on = false;
#else
  bool const on = true;
#endif
  switch( which )
  {
    case 31: withMsg = false; { bool const c = a == b; HERE( LVARRAY_ASSERT( c ) ); return on && !c; }
    case 32: { bool const c = a == b; HERE( LVARRAY_ASSERT_MSG( c, "MSG " << msg ) ); return on && !c; }
    default: withValues = true;
  }
  switch( which )
  {
    case 33: HERE( LVARRAY_ASSERT_EQ( a, b ) ); withMsg = false; return on && !( a == b );
    case 34: HERE( LVARRAY_ASSERT_NE( a, b ) ); withMsg = false; return on && !( a != b );
    case 35: HERE( LVARRAY_ASSERT_GT( a, b ) ); withMsg = false; return on && !( a > b );
    case 36: HERE( LVARRAY_ASSERT_GE( a, b ) ); withMsg = false; return on && !( a >= b );
    case 37: HERE( LVARRAY_ASSERT_EQ_MSG( a, b, "MSG " << msg ) ); return on && !( a == b );
    case 38: HERE( LVARRAY_ASSERT_NE_MSG( a, b, "MSG " << msg ) ); return on && !( a != b );
    case 39: HERE( LVARRAY_ASSERT_GT_MSG( a, b, "MSG " << msg ) ); return on && !( a > b );
    default: HERE( LVARRAY_ASSERT_GE_MSG( a, b, "MSG " << msg ) ); return on && !( a >= b );
  }
}
constexpr int CHECKS = 41;

/// The condition of a check without executing it.
template< typename T, typename U >
bool condition( int const which, T const a, U const b )
{
#if defined( NDEBUG )
  bool const on = false;
#else
  bool const on = true;
#endif
  static char const ops[] = "=" "=!>G<L" "=!>G<L" "<" "=!>G<L" "=!>G<L" "=<tt" "t" "nn" "n~lx" "n~lx";
  switch( ops[ which ] )
  {
    case '=': return a == b;
    case '!': return a != b;
    case '>': return a > b;
    case 'G': return a >= b;
    case '<': return a < b;
    case 'L': return a <= b;
    case 't': return true;
    case 'n': return on && !( a == b );
    case '~': return on && !( a != b );
    case 'l': return on && !( a > b );
    default: return on && !( a >= b );
  }
}

struct Bench
{
  os::Config cfg;
  int installed = 0;                 // id of the installed error handler, 0: none
  int calls = 0, lastCalled = 0;
  bool handlerThrows = true;

  template< typename T, typename U >
  void oneCheck( T const a, U const b )
  {
    int const which = int( sim::draw( CHECKS ) );
    bool const expect = condition( which, a, b );
    std::string const msg = "m" + std::to_string( sim::draw( 1000 ) );
    std::ostringstream sa, sb;
    sa << a; sb << b;
    sim::log( "check %d on %s and %s", which, sa.str().c_str(), sb.str().c_str() );
    Outcome then = Outcome::nothing;
    bool withMsg = false, withValues = false, was = false;
    bool thrown = false, handled = false;
    std::string text;
    sim::takeOutput();
    int thread = -1;
    int const before = calls;
    int const helpersBefore = os::helpersStarted();
    bool const aborts = installed == 0 || !handlerThrows;
    auto const body = [ & ]()
    {
      thread = os::traceBegin();
      try { was = check( which, a, b, msg, then, withMsg, withValues ); }
      catch( Custom const & e ) { thrown = true; text = e.what(); }
      catch( Stop const & s ) { handled = true; (void) s; }
    };
    bool const mute = sim::chance( 1, 16 );             // nobody reads the standard output any more
    if( mute ) { std::cout.setstate( std::ios_base::badbit ); sim::fault_fired( "output-stream-failed" ); }
    bool stopped = false;
    // a check that is expected to end in an aborting handler runs in its own scope
    bool const isError = which <= 12 || which >= 30;
    if( expect && isError && aborts ) { stopped = sim::stops( body ); text = sim::stopOutput(); }
    else { body(); if( !thrown ) text = sim::takeOutput(); }
    (void) was;
    if( mute ) std::cout.clear();
    if( expect && isError )
    {
      if( aborts ) SIM_CHECK( stopped, "check-not-enforced", "check %d with a true condition did not end the program", which );
      else
      {
        SIM_CHECK( calls == before + 1 && handled, "check-not-enforced", "check %d with a true condition called the error handler %d times", which, calls - before );
        SIM_CHECK( lastCalled == installed, "wrong-handler", "handler %d was called but %d is installed", lastCalled, installed );
      }
    }
    else SIM_CHECK( calls == before && !handled, "false-alarm", "check %d on %s and %s with a false condition called the error handler", which, sa.str().c_str(), sb.str().c_str() );
    bool const isThrow = which >= 13 && which <= 25;
    SIM_CHECK( thrown == ( isThrow && expect ), "throw", "check %d on %s and %s: condition %d, thrown %d", which, sa.str().c_str(), sb.str().c_str(), int( expect ), int( thrown ) );
    if( !expect ) { SIM_CHECK( text.empty(), "false-alarm", "check %d with a false condition printed %s", which, text.c_str() ); SIM_CHECK( helpersBefore == os::helpersStarted(), "false-alarm", "a false check looks for symbols" ); return; }
    sim::probe( "nontrivial" );
    sim::probe( isThrow ? "throwing-check" : isError ? "stopping-check" : "printing-check" );
    // the text
    if( mute && !isThrow ) { if( stopped ) abandoned = true; return; }
    bool const hasMsg = !( which >= 1 && which <= 6 ) && !( which >= 14 && which <= 19 ) && which != 31 && !( which >= 33 && which <= 36 );
    bool const hasValues = ( which >= 1 && which <= 12 ) || ( which >= 14 && which <= 25 ) || which >= 33;
    SIM_CHECK( text.find( "c17_reports.cpp:" + std::to_string( g_line ) ) != std::string::npos, "bad-report", "check %d: the location %d is missing in %s", which, g_line, text.c_str() );
    if( hasMsg ) SIM_CHECK( text.find( "MSG " + msg + "\n" ) != std::string::npos, "bad-report", "check %d: the message %s is missing in %s", which, msg.c_str(), text.c_str() );
    if( hasValues )
    {
      std::size_t const p = text.find( "a = " + sa.str() + "\n" );
      SIM_CHECK( p != std::string::npos && text.find( "b = " + sb.str() + "\n", p ) != std::string::npos, "bad-report", "check %d: the values %s and %s are missing in %s", which, sa.str().c_str(), sb.str().c_str(), text.c_str() );
    }
    if( isThrow || isError ) { checkTrace( thread, text, true, cfg ); }
    if( !stopped ) checkClean(); else abandoned = true;
  }
  bool abandoned = false;

  void step()
  {
    sim::Span span;
    switch( sim::draw( 10 ) )
    {
      case 9:
      {
        // plain lines of output
        int const a = sim::range( -3, 3 );
        std::string const msg = "m" + std::to_string( sim::draw( 1000 ) );
        int const which = int( sim::draw( 3 ) );
        bool const mute = sim::chance( 1, 8 );
        sim::log( "plain line %d", which );
        sim::takeOutput();
        if( mute ) { std::cout.setstate( std::ios_base::badbit ); sim::fault_fired( "output-stream-failed" ); }
        if( which == 0 ) LVARRAY_LOG( "MSG " << msg );
        else if( which == 1 ) LVARRAY_LOG_VAR( a );
        else LVARRAY_LOG_VAR( a + 1 << ' ' << msg );
        std::string const text = sim::takeOutput();
        if( mute ) std::cout.clear();
        std::string const want = which == 0 ? "MSG " + msg + "\n" : which == 1 ? "a = " + std::to_string( a ) + "\n" : "a + 1 << ' ' << msg = " + std::to_string( a + 1 ) + " " + msg + "\n";
        SIM_CHECK( text == ( mute ? "" : want ), "bad-report", "line %d printed '%s', expected '%s'", which, text.c_str(), want.c_str() );
        checkClean();
        break;
      }
      case 0: case 1:
      {
        bool const location = sim::chance( 3, 4 );
        int const depth = int( sim::draw( 40 ) );
        sim::log( "stackTrace( %d ) below %d frames", int( location ), depth );
        std::string text;
        int const thread = os::traceBegin();
        deeper( cfg.synthetic ? 0 : depth, [ & ]() { text = LvArray::system::stackTrace( location ); } );
        checkTrace( thread, text, location, cfg );
        if( !location ) SIM_CHECK( os::traceHelpers( thread ).empty(), "false-alarm", "a trace without locations starts helpers" );
        checkClean();
        sim::probe( "nontrivial" );
        break;
      }
      case 2: oneCheck( sim::range( -3, 3 ), sim::range( -3, 3 ) ); break;
      case 3: oneCheck( std::int64_t( sim::range( -3, 3 ) ), sim::range( -2, 2 ) ); break;
      case 4:
      { // also operands that compare with nothing
        double const v[] = { 0.0, -1.5, 2.25, 1e300, -0.0, NAN, INFINITY };
        oneCheck( v[ sim::draw( 7 ) ], v[ sim::draw( 7 ) ] );
        break;
      }
      case 5: oneCheck( std::string( sim::draw( 3 ), 'x' ), std::string( sim::draw( 3 ), 'x' ) ); break;
      case 7:
      {
        static char const * const names[] = { "_ZN7LvArray6system10stackTraceB5cxx11Eb", "_ZNSt6vectorIiSaIiEE9push_backERKi", "main", "_Z", "", "i", "_ZnotMangled" };
        static char const * const want[] = { "LvArray::system::stackTrace[abi:cxx11](bool)", "std::vector<int, std::allocator<int> >::push_back(int const&)", "main", "_Z", "", "int", "_ZnotMangled" };
        std::uint32_t const k = sim::draw( 8 );
        if( k == 7 ) { SIM_CHECK( LvArray::system::demangle( nullptr ).empty(), "bad-name", "the name of nothing is not empty" ); break; }
        std::string const got = LvArray::system::demangle( names[ k ] );
        SIM_CHECK( got == want[ k ] || ( cfg.pmDemangle && got == names[ k ] ), "bad-name", "%s is demangled to %s", names[ k ], got.c_str() );
        if( cfg.pmDemangle == 0 ) SIM_CHECK( LvArray::system::demangleType< Bench * >().find( "Bench*" ) != std::string::npos && LvArray::system::demangleType( 1.5 ) == "double", "bad-name", "a type is demangled wrongly" );
        break;
      }
      case 6:
      {
        int const sig = sim::chance( 1, 8 ) ? sim::range( -2, 70 ) : sim::range( 1, 31 );
        bool const exit = sim::chance( 1, 3 );
        int const except = int( sim::draw( 32 ) );
        static int const bits[] = { FE_DIVBYZERO, FE_INEXACT, FE_INVALID, FE_OVERFLOW, FE_UNDERFLOW };
        static char const * const words[] = { "Division by zero", "Inexact result", "Invalid argument", "Overflow", "Underflow" };
        os::resetFp();
        feclearexcept( FE_ALL_EXCEPT );
        for( int i = 0; i < 5; ++i ) if( except & ( 1 << i ) ) feraiseexcept( bits[ i ] );
        sim::log( "stackTraceHandler( %d, %d ), raised %d", sig, int( exit ), except );
        sim::takeOutput();
        int thread = -1;
        int const before = calls;
        bool handled = false, stopped = false;
        std::string text;
        int raised = -1;
        auto const body = [ & ]() { thread = os::traceBegin(); try { raised = fetestexcept( FE_ALL_EXCEPT ); LvArray::system::stackTraceHandler( sig, exit ); } catch( Stop const & ) { handled = true; } };
        if( exit && ( installed == 0 || !handlerThrows ) ) { stopped = sim::stops( body ); text = sim::stopOutput(); SIM_CHECK( stopped, "check-not-enforced", "the signal handler did not end the program" ); abandoned = true; }
        else { body(); text = sim::takeOutput(); SIM_CHECK( handled == exit && calls == before + ( exit ? 1 : 0 ), "wrong-handler", "stackTraceHandler( %d, %d ) called the error handler %d times", sig, int( exit ), calls - before ); }
        if( sig >= 1 && sig <= 31 )
        {
          SIM_CHECK( text.find( "signal " + std::to_string( sig ) + ":" ) != std::string::npos, "bad-report", "the signal %d is not named in %s", sig, text.c_str() );
          sim::NoTrack q;
          SIM_CHECK( text.find( strsignal( sig ) ) != std::string::npos, "bad-report", "the description of signal %d is not in %s", sig, text.c_str() );
        }
        if( sig == SIGFPE )
          for( int i = 0; i < 5; ++i )
            SIM_CHECK( ( text.find( words[ i ] ) != std::string::npos ) == ( ( raised & bits[ i ] ) != 0 ), "bad-report", "raised exceptions %d but the report says %s", raised, text.c_str() );
        checkTrace( thread, text, true, cfg );
        if( !stopped ) checkClean();
        os::resetFp();
        sim::probe( "signal-report" );
        break;
      }
      default:
      {
        int const id = ++nextHandler;
        handlerThrows = !sim::chance( 1, 6 );
        sim::log( "install error handler %d (%s)", id, handlerThrows ? "throws" : "ends the program" );
        std::shared_ptr< int > own( new int( id ) );   // the handler owns memory
        bool const thr = handlerThrows;
        Bench * const me = this;
        LvArray::system::setErrorHandler( [ own, thr, me ]()
        {
          ++me->calls;
          me->lastCalled = *own;
          if( thr ) throw Stop{ *own };
          sim::errorStop( "error handler" );
        } );
        installed = id;
        sim::probe( "handler-installed" );
      }
    }
  }
  int nextHandler = 0;
};

} // namespace

void scenarioWarmup() {}

void scenario()
{
  Bench bench;
  os::Config & c = bench.cfg;
  bool const storm = sim::chance( 2, 3 );
  c.synthetic = !sim::chance( 1, 4 );
  c.depth = sim::chance( 1, 3 ) ? sim::range( 0, 6 ) : sim::range( 0, 45 );
  c.zeroAt = sim::chance( 1, 6 ) ? int( sim::draw( 30 ) ) : -1;
  c.exePathLength = sim::chance( 1, 2 ) ? sim::range( 1, 20 ) : sim::range( 1, 300 );
  for( bool & b : c.closedStd ) b = sim::chance( 1, 12 );
  if( storm )
  {
    std::uint32_t * const rates[] = { &c.pmPipe, &c.pmFork, &c.pmExec, &c.pmDup, &c.pmFdopen, &c.pmReadError, &c.pmDeath, &c.pmWaitIntr, &c.pmGarble, &c.pmReadlink, &c.pmDemangle };
    for( std::uint32_t * r : rates ) if(  sim::chance( 2, 5 ) ) *r = sim::chance( 1, 4 ) ? 1000 : 30 + sim::draw( 400 );
    c.pmWaitIntr = std::min( c.pmWaitIntr, 400u );   // an interruption does not repeat for ever
  }
  os::start( c );
  LvArray::system::setSignalHandling( nullptr );   // the table of handlers stays allocated
  sim::setFaultsEnabled( true );
  {
    Bench * const me = &bench;
    auto const baseHandler = [ me ]() { ++me->calls; me->lastCalled = -1; throw Stop{ -1 }; };
    bool const start = sim::chance( 2, 3 );
    if( start ) { LvArray::system::setErrorHandler( baseHandler ); bench.installed = -1; }
    sim::HeapStats const before = sim::heap();
    os::resetExempt();
    while( sim::more( 5 ) ) bench.step();
    if( start && !bench.abandoned )
    {
      LvArray::system::setErrorHandler( baseHandler );
      long long const left = (long long) ( sim::heap().blocks - before.blocks ) - os::exemptBlocks();
      long long const leftMallocs = (long long) ( sim::heap().mallocBlocks - before.mallocBlocks ) - os::exemptMallocs();
      SIM_CHECK( left == 0 && leftMallocs == 0, "leak", "%lld blocks of memory remain after the reports", left );
    }
    LvArray::system::setErrorHandler( []() { sim::errorStop( "" ); } );
  }
  // two threads fail at the same time
  if( sim::chance( 1, 4 ) && !bench.abandoned )
  {
    sim::probe( "several-callers" );
    LvArray::system::setErrorHandler( []() { throw Stop{ 7 }; } );
    int const n = sim::range( 2, 4 );
    os::Config const cfg = c;
    sim::parallel( n, [ cfg ]( int const t )
    {
      for( int k = 0; k < 2; ++k )
      {
        int const thread = os::traceBegin();
        if( t % 2 )
        {
          std::string const text = LvArray::system::stackTrace( true );
          checkTrace( thread, text, true, cfg );
        }
        else
        {
          bool caught = false;
          std::string text;
          int const v = t * 10 + k;
          try { LVARRAY_THROW_IF_GE_MSG( v, 0, "thread " << v << ";", Custom ); }
          catch( Custom const & e ) { caught = true; text = e.what(); }
          SIM_CHECK( caught, "throw", "thread %d did not throw", t );
          SIM_CHECK( text.find( "thread " + std::to_string( v ) + ";" ) != std::string::npos, "bad-report", "the message of thread %d is %s", t, text.c_str() );
          checkTrace( thread, text, true, cfg );
        }
      }
    } );
    checkClean();
  }
  LvArray::system::setErrorHandler( []() { std::abort(); } );
}
