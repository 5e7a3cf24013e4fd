// The simulated operating system used by the error reporting and signal scenarios: descriptors, pipes, helper processes,
// the dynamic linker's symbol lookup, the unwinder, stdio and signal dispositions. Implemented by link time wrapping in
// os_model.cpp; inactive (everything goes to the real system) unless os::active is set.
#pragma once

#include "sim.hpp"

#include <cstdint>
#include <string>
#include <vector>

namespace os
{

struct Config
{
  bool synthetic = true;             // the unwinder walks a made up stack
  int depth = 10;                    // frames of the made up stack
  int zeroAt = -1;                   // the unwinder reports a null instruction pointer there
  std::uint32_t pmPipe = 0, pmFork = 0, pmExec = 0, pmDup = 0, pmFdopen = 0, pmReadError = 0, pmDeath = 0, pmWaitIntr = 0,
                pmGarble = 0, pmReadlink = 0, pmDemangle = 0, pmFeFail = 0;
  bool closedStd[ 3 ] = { false, false, false };
  int exePathLength = 20;
};

/// What the world answered about one frame, in the order the frames were asked for.
struct Symbol
{
  std::uintptr_t address;
  bool known;                        // dladdr succeeds
  bool hasName;
  std::string name, file;            // dli_sname, dli_fname
};

/// One helper process.
struct Helper
{
  std::uintptr_t address = 0;
  std::string flag, file;
  bool executed = false, toPipe = false, garbled = false, readError = false, delivered = false;
  std::string text;                  // what it wrote
  int thread = -1;
};

/// Model code: not instrumented, and what it allocates is not counted as memory of the code under test.
struct Exempt
{
  Exempt();
  ~Exempt();
  sim::NoTrack quiet;
  std::uint64_t blocks, mallocs;
  bool outer;
};
std::int64_t exemptBlocks();
std::int64_t exemptMallocs();
void resetExempt();

void start( Config const & c );
void stop();
bool running();
Config & config();
int feFailures();
void resume( bool );
/// What is wrong with the descriptor and process tables now (empty: nothing).
std::string leftovers();
/// The return addresses the unwinder handed out to this thread since the last call of traceBegin.
int traceBegin();                    // the number of this simulated thread
std::vector< std::uintptr_t > traceFrames( int thread );
std::vector< Helper > traceHelpers( int thread );
Symbol symbolOf( std::uintptr_t address );
std::string exePath();
int helpersStarted();

// signals
using Handler = void ( * )( int );
Handler disposition( int sig );
void setDisposition( int sig, Handler h );
void deliver( int sig );             // runs the installed handler on this thread
int lastDefaultAction();             // the signal whose default action would have been taken, 0 if none
void clearDefaultAction();

// floating point, executed by uninstrumented code on the real unit
enum class Op { divideByZero, overflow, invalid, underflow, inexact };
bool traps( Op op, bool extended );  // executes the operation, true if it raised SIGFPE
unsigned mxcsr();
void setMxcsr( unsigned );
unsigned x87cw();
void resetFp();
unsigned x87sw();

} // namespace os
