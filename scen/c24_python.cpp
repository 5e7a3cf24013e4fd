// C24: containers exported to Python. The real interpreter and NumPy run inside the simulated process, the bindings are
// the repository's, and the calls they make into the interpreter and NumPy fail where the simulator decides.
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include "common.hpp"
#include "python/python.hpp"

#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>

#include <array>
#include <cstring>
#include <typeinfo>

using namespace LvArray;
using namespace scn;
namespace py = LvArray::python;

extern "C" PyObject * PyInit_pylvarray( void );

namespace
{

// ------------------------------------------------------------------ the seam between the bindings and the interpreter
int armed = 0;                 // the bindings run, calls they make may fail
unsigned failurePermille = 0;
int failures = 0;              // how many calls failed in this call of the bindings

struct Armed { Armed() { ++armed; } ~Armed() { --armed; } };
struct Disarmed
{   int was;
  Disarmed(): was( armed ) { armed = 0; }
  ~Disarmed() { armed = was; }
};

bool failHere( char const * const kind )
{
  if( armed == 0 || failurePermille == 0 || PyErr_Occurred() ) return false;
  if( !sim::faultPoint( kind, failurePermille ) ) return false;
  ++failures;
  sim::note( "  (%s)", kind );
  return true;
}
bool noMemory()
{
  if( !failHere( "py-no-memory" ) ) return false;
  PyErr_NoMemory();
  return true;
}

} // namespace

extern "C"
{
#define SEAM_PTR( NAME, PARAMS, ARGS ) \
  PyObject * __real_ ## NAME PARAMS; \
  PyObject * __wrap_ ## NAME PARAMS { if( noMemory() ) return nullptr; return __real_ ## NAME ARGS; }

SEAM_PTR( PyTuple_New, ( Py_ssize_t n ), ( n ) )
SEAM_PTR( PyList_New, ( Py_ssize_t n ), ( n ) )
SEAM_PTR( PyUnicode_FromString, ( char const * s ), ( s ) )
SEAM_PTR( PyUnicode_FromStringAndSize, ( char const * s, Py_ssize_t n ), ( s, n ) )
SEAM_PTR( PyUnicode_DecodeUTF8, ( char const * s, Py_ssize_t n, char const * e ), ( s, n, e ) )
SEAM_PTR( PyLong_FromLong, ( long v ), ( v ) )
SEAM_PTR( PyLong_FromLongLong, ( long long v ), ( v ) )
SEAM_PTR( PyLong_FromSsize_t, ( Py_ssize_t v ), ( v ) )
SEAM_PTR( PyObject_CallObject, ( PyObject * f, PyObject * a ), ( f, a ) )
SEAM_PTR( PyType_GenericAlloc, ( PyTypeObject * t, Py_ssize_t n ), ( t, n ) )
SEAM_PTR( PyModule_Create2, ( PyModuleDef * d, int v ), ( d, v ) )
SEAM_PTR( PyObject_GetAttrString, ( PyObject * o, char const * n ), ( o, n ) )

PyObject * __real_PyImport_ImportModule( char const * );
PyObject * __wrap_PyImport_ImportModule( char const * name )
{
  if( failHere( "py-import-error" ) ) { PyErr_Format( PyExc_ImportError, "No module named '%s'", name ); return nullptr; }
  return __real_PyImport_ImportModule( name );
}

// Only ever called with at most six variable arguments, all of them in integer registers or on the stack.
PyObject * __real__PyObject_CallFunction_SizeT( PyObject *, char const *, ... );
PyObject * __wrap__PyObject_CallFunction_SizeT( PyObject * f, char const * fmt, long a, long b, long c, long d, long e, long g )
{
  if( noMemory() ) return nullptr;
  return __real__PyObject_CallFunction_SizeT( f, fmt, a, b, c, d, e, g );
}

int __real_PyModule_AddObject( PyObject *, char const *, PyObject * );
int __wrap_PyModule_AddObject( PyObject * m, char const * n, PyObject * o ) { if( noMemory() ) return -1; return __real_PyModule_AddObject( m, n, o ); }
int __real_PyModule_AddObjectRef( PyObject *, char const *, PyObject * );
int __wrap_PyModule_AddObjectRef( PyObject * m, char const * n, PyObject * o ) { if( noMemory() ) return -1; return __real_PyModule_AddObjectRef( m, n, o ); }
int __real_PyModule_AddIntConstant( PyObject *, char const *, long );
int __wrap_PyModule_AddIntConstant( PyObject * m, char const * n, long v ) { if( noMemory() ) return -1; return __real_PyModule_AddIntConstant( m, n, v ); }
int __real_PyObject_IsInstance( PyObject *, PyObject * );
int __wrap_PyObject_IsInstance( PyObject * o, PyObject * c ) { if( noMemory() ) return -1; return __real_PyObject_IsInstance( o, c ); }
int __real_PyType_Ready( PyTypeObject * );
int __wrap_PyType_Ready( PyTypeObject * t ) { if( noMemory() ) return -1; return __real_PyType_Ready( t ); }
}

namespace
{

// NumPy is called through a table of functions.
using NewFromDescr = PyObject * ( * )( PyTypeObject *, PyArray_Descr *, int, npy_intp const *, npy_intp const *, void *, int, PyObject * );
using CastToType = PyObject * ( * )( PyArrayObject *, PyArray_Descr *, int );
using Converter = int ( * )( PyObject *, PyObject * * );
using TypeObject = PyObject * ( * )( int );
NewFromDescr realNewFromDescr; CastToType realCast; Converter realConverter; TypeObject realTypeObject;

PyObject * newFromDescr( PyTypeObject * t, PyArray_Descr * d, int n, npy_intp const * dims, npy_intp const * strides, void * data, int flags, PyObject * o )
{
  if( noMemory() ) { Py_XDECREF( d ); return nullptr; }
  return realNewFromDescr( t, d, n, dims, strides, data, flags, o );
}
PyObject * castToType( PyArrayObject * a, PyArray_Descr * d, int f )
{
  if( noMemory() ) { Py_XDECREF( d ); return nullptr; }
  return realCast( a, d, f );
}
int converter( PyObject * o, PyObject * * out )
{
  if( noMemory() ) { *out = nullptr; return 0; }
  return realConverter( o, out );
}
PyObject * typeObjectFromType( int t )
{
  if( noMemory() ) return nullptr;
  return realTypeObject( t );
}

template< typename F >
void hook( F & real, F mine )
{
  for( int i = 0; i < 512; ++i )
    if( PyArray_API[ i ] == reinterpret_cast< void * >( real ) ) { PyArray_API[ i ] = reinterpret_cast< void * >( mine ); return; }
  std::fprintf( stderr, "NumPy's table does not have a function\n" );
  std::_Exit( 70 );
}

// ------------------------------------------------------------------ memory of Python objects made in this run
struct Live { void * p; std::size_t n; unsigned op; };
constexpr unsigned LIVE = 1u << 16;
Live live[ LIVE ];
unsigned nLive = 0;
bool tracking = false;
unsigned curOp = 0;

// The interpreter allocates as it likes, which is not part of what is simulated.
#define UNSEEN __attribute__( ( disable_sanitizer_instrumentation ) )
UNSEEN unsigned slotOf( void * const p )
{
  unsigned h = unsigned( ( std::uintptr_t( p ) >> 4 ) * 2654435761u ) & ( LIVE - 1 );
  return h;
}
void * const TOMB = reinterpret_cast< void * >( 1 );
UNSEEN void liveAdd( void * const p, std::size_t const n )
{
  if( !tracking || !p ) return;
  unsigned h = slotOf( p );
  while( live[ h ].p && live[ h ].p != TOMB ) h = ( h + 1 ) & ( LIVE - 1 );
  live[ h ] = Live{ p, n, curOp };
  ++nLive;
}
UNSEEN void liveDel( void * const p )
{
  if( !tracking || !p ) return;
  unsigned h = slotOf( p );
  for(; live[ h ].p; h = ( h + 1 ) & ( LIVE - 1 ) ) if( live[ h ].p == p ) { live[ h ].p = TOMB; --nLive; return; }
}

PyMemAllocatorEx under;
UNSEEN void * hookMalloc( void *, size_t n ) { void * p = under.malloc( under.ctx, n ); liveAdd( p, n ); return p; }
UNSEEN void * hookCalloc( void *, size_t k, size_t n ) { void * p = under.calloc( under.ctx, k, n ); liveAdd( p, k * n ); return p; }
UNSEEN void * hookRealloc( void *, void * o, size_t n )
{
  void * p = under.realloc( under.ctx, o, n );
  if( p ) { liveDel( o ); liveAdd( p, n ); }
  return p;
}
UNSEEN void hookFree( void *, void * p ) { liveDel( p ); under.free( under.ctx, p ); }

// ------------------------------------------------------------------ small helpers for Python objects of the harness
struct Ref
{
  PyObject * o = nullptr;
  Ref() = default;
  Ref( PyObject * p ): o( p ) {}
  Ref( Ref && r ): o( r.o ) { r.o = nullptr; }
  Ref & operator=( Ref && r ) { std::swap( o, r.o ); return *this; }
  Ref( Ref const & ) = delete;
  ~Ref() { Py_XDECREF( o ); }
  operator PyObject *() const { return o; }
};

/// The garbage collector runs only here, so that it runs at a fixed point of a run.
void collect() { PyGC_Enable(); PyGC_Collect(); PyGC_Disable(); }

[[noreturn]] void harness( char const * const what )
{
  if( sim::verbose() ) PyErr_Print();
  sim::fail( "harness", "%s", what );
}
PyObject * need( PyObject * const o ) { if( !o ) harness( "the harness could not make a Python object" ); return o; }

/// The name of the pending exception, which is cleared.
std::string takeException()
{
  PyObject * const e = PyErr_GetRaisedException();
  std::string const s = e ? Py_TYPE( e )->tp_name : "";
  if( sim::verbose() && e )
  {
    sim::NoTrack quiet;      // a run that is printed is the same run
    Ref text{ PyObject_Str( e ) };
    char const * c = text.o ? PyUnicode_AsUTF8( text ) : nullptr;
    if( !c ) PyErr_Clear();
    std::string line = c ? c : "?";
    line = line.substr( 0, line.find( "\n** StackTrace" ) );
    for( char & x : line ) if( x == '\n' ) x = ' ';
    // addresses are not the same in every process
    for( std::size_t a = line.find( "0x" ); a != std::string::npos; a = line.find( "0x", a + 2 ) ) while( a + 2 < line.size() && std::isxdigit( (unsigned char) line[ a + 2 ] ) ) line.erase( a + 2, 1 );
    sim::note( "    raised %s %s", s.c_str(), line.substr( 0, 160 ).c_str() );
  }
  Py_XDECREF( e );
  return s;
}

struct Result
{
  Ref value;
  std::string raised;      // empty: returned a value
  bool faulted = false;    // a call the bindings made failed
  bool ok() const { return raised.empty(); }
};

/// Judge what the bindings returned: either a value, or nothing and an exception.
Result judge( PyObject * const r, char const * const name )
{
  Result res;
  res.value = Ref{ r };
  bool const e = PyErr_Occurred() != nullptr;
  if( r && e ) sim::fail( "value-and-exception", "%s returned a value although an exception (%s) is set", name, takeException().c_str() );
  if( !r && !e ) sim::fail( "no-exception", "%s failed without an exception", name );
  if( e ) res.raised = takeException();
  if( res.raised == "SystemError" ) sim::fail( "inconsistent-result", "%s returned a value with an exception set, or nothing without one", name );
  res.faulted = failures != 0;
  if( res.faulted && res.ok() ) sim::probe( "failure-survived" );
  return res;
}

template< typename F >
Result protect( char const * const name, F && f )
{
  if( PyErr_Occurred() ) sim::fail( "harness", "an exception is pending before %s", name );
  failures = 0;
  PyObject * r = nullptr;
  bool const stopped = sim::stops( [ & ]{ Armed a; r = f(); } );
  if( stopped ) { armed = 0; sim::fail( "process-stopped", "%s ended the process: %s", name, sim::stopOutput().substr( 0, 200 ).c_str() ); }
  return judge( r, name );
}

/// A method of an exported object; the arguments keep their reference counts.
Result method( PyObject * const self, char const * const name, std::vector< PyObject * > const & args )
{
  Ref const m{ need( PyObject_GetAttrString( self, name ) ) };
  Ref const tuple{ need( PyTuple_New( Py_ssize_t( args.size() ) ) ) };
  for( std::size_t i = 0; i < args.size(); ++i ) { Py_INCREF( args[ i ] ); PyTuple_SET_ITEM( tuple.o, Py_ssize_t( i ), args[ i ] ); }
  std::vector< Py_ssize_t > before;
  for( auto * const a : args ) before.push_back( Py_REFCNT( a ) );
  Py_ssize_t const selfBefore = Py_REFCNT( self );
  Result r = protect( name, [ & ]{ return PyObject_Call( m, tuple, nullptr ); } );
  if( Py_REFCNT( self ) != selfBefore ) sim::fail( "wrong-reference-count", "%s changed the references to its object by %ld", name, long( Py_REFCNT( self ) - selfBefore ) );
  for( std::size_t i = 0; i < args.size(); ++i )
    if( Py_REFCNT( args[ i ] ) != before[ i ] && !( r.value.o == args[ i ] ) )
      sim::fail( "wrong-reference-count", "%s changed the references to argument %zu by %ld", name, i, long( Py_REFCNT( args[ i ] ) - before[ i ] ) );
  return r;
}

/// An integer made while the bindings run, by the harness.
PyObject * plainInt( long long const v ) { Disarmed d; return need( PyLong_FromLongLong( v ) ); }
Ref pyInt( long long const v ) { return Ref{ need( PyLong_FromLongLong( v ) ) }; }

template< typename T > struct NpType;
#define NP_TYPE( T, N ) template<> struct NpType< T > { static constexpr int value = N; }
NP_TYPE( char, NPY_BYTE ); NP_TYPE( signed char, NPY_BYTE ); NP_TYPE( unsigned char, NPY_UBYTE ); NP_TYPE( short, NPY_SHORT ); NP_TYPE( unsigned short, NPY_USHORT ); NP_TYPE( int, NPY_INT );
NP_TYPE( unsigned int, NPY_UINT ); NP_TYPE( long, NPY_LONG ); NP_TYPE( unsigned long, NPY_ULONG ); NP_TYPE( long long, NPY_LONGLONG ); NP_TYPE( unsigned long long, NPY_ULONGLONG );
NP_TYPE( float, NPY_FLOAT ); NP_TYPE( double, NPY_DOUBLE ); NP_TYPE( long double, NPY_LONGDOUBLE );

PyObject * brokenArray = nullptr;   // an object whose conversion to an array raises

// ------------------------------------------------------------------ arguments with values
enum class Verdict { accept, refuse, either };
template< typename T >
struct Values
{
  Ref obj;
  Verdict verdict = Verdict::accept;
  std::vector< T > vals;      // what an accepted argument stands for
};

template< typename T >
Ref npArray( std::vector< T > const & v, int const ndim = 1 )
{
  npy_intp dims[ 2 ] = { npy_intp( v.size() ), 1 };
  Ref a{ need( PyArray_SimpleNew( ndim, dims, NpType< T >::value ) ) };
  if( !v.empty() ) std::memcpy( PyArray_DATA( reinterpret_cast< PyArrayObject * >( a.o ) ), v.data(), v.size() * sizeof( T ) );
  return a;
}

/// An argument that stands for (about) the given values.
template< typename T >
Values< T > drawValues( std::vector< T > const & want )
{
  Values< T > out;
  switch( sim::draw( 18 ) )
  {
    default: out.obj = npArray( want ); break;
    case 5:
    {
      std::vector< short > v( want.begin(), want.end() );
      out.obj = npArray( v );
      break;
    }
    case 6:
    {
      std::vector< unsigned char > v;
      for( auto const x : want ) if( x >= T( 0 ) ) v.push_back( static_cast< unsigned char >( x ) );
      out.obj = npArray( v );
      break;
    }
    case 7:
    {
      out.obj = Ref{ need( sim::draw( 2 ) ? PyList_New( Py_ssize_t( want.size() ) ) : PyTuple_New( Py_ssize_t( want.size() ) ) ) };
      for( std::size_t i = 0; i < want.size(); ++i )
      {
        PyObject * const x = need( PyLong_FromLongLong( static_cast< long long >( want[ i ] ) ) );
        if( PyList_Check( out.obj.o ) ) PyList_SET_ITEM( out.obj.o, Py_ssize_t( i ), x ); else PyTuple_SET_ITEM( out.obj.o, Py_ssize_t( i ), x );
      }
      break;
    }
    case 8:
    {
      if( want.empty() ) { out.obj = npArray( want ); break; }
      Ref const a{ npArray( std::vector< T >{ want[ 0 ] } ) };
      Ref const zero{ pyInt( 0 ) };
      out.obj = Ref{ need( PyObject_GetItem( a, zero ) ) };        // a NumPy scalar
      break;
    }
    case 9: out.obj = npArray( want, 2 ); break;
    case 10:
    {
      std::vector< T > twice;
      for( auto const x : want ) { twice.push_back( x ); twice.push_back( T( 99 ) ); }
      Ref const a{ npArray( twice ) };
      Ref const two{ pyInt( 2 ) };
      Ref const slice{ need( PySlice_New( nullptr, nullptr, two ) ) };
      out.obj = Ref{ need( PyObject_GetItem( a, slice ) ) };       // every second value
      break;
    }
    case 11:
    {
      out.obj = npArray( want );
      PyArray_CLEARFLAGS( reinterpret_cast< PyArrayObject * >( out.obj.o ), NPY_ARRAY_WRITEABLE );
      break;
    }
    case 12:
    {
      std::vector< double > v;
      for( auto const x : want ) v.push_back( double( x ) + ( sim::draw( 2 ) ? 0.5 : 0.0 ) );
      std::sort( v.begin(), v.end() );
      out.obj = npArray( v );
      break;
    }
    case 13:
    {
      static char const * const TEXT[] = { "foobar", "", "12" };
      int const k = int( sim::draw( 6 ) );
      if( k < 3 ) out.obj = Ref{ need( PyUnicode_FromString( TEXT[ k ] ) ) };
      else if( k == 3 ) { Py_INCREF( Py_None ); out.obj = Ref{ Py_None }; }
      else { Py_INCREF( brokenArray ); out.obj = Ref{ brokenArray }; }
      break;
    }
    case 14:
    {
      Ref const a{ npArray( want ) };
      Ref const d{ need( reinterpret_cast< PyObject * >( PyArray_DescrNewByteorder( PyArray_DESCR( reinterpret_cast< PyArrayObject * >( a.o ) ), NPY_SWAP ) ) ) };
      Py_INCREF( d.o );
      out.obj = Ref{ need( PyArray_FromArray( reinterpret_cast< PyArrayObject * >( a.o ), reinterpret_cast< PyArray_Descr * >( d.o ), NPY_ARRAY_DEFAULT ) ) };
      break;
    }
    case 15:
    {
      std::vector< long double > v( want.begin(), want.end() );
      out.obj = npArray( v );
      break;
    }
    case 16: case 17:      // any other type of numbers
    {
      static int const TYPES[] = { NPY_BYTE, NPY_UBYTE, NPY_SHORT, NPY_USHORT, NPY_INT, NPY_UINT, NPY_LONG, NPY_ULONG, NPY_LONGLONG, NPY_ULONGLONG,
                                   NPY_HALF, NPY_FLOAT, NPY_DOUBLE, NPY_LONGDOUBLE, NPY_CFLOAT, NPY_CDOUBLE, NPY_OBJECT };
      int const type = TYPES[ sim::draw( sizeof( TYPES ) / sizeof( TYPES[ 0 ] ) ) ];
      std::vector< T > v;
      for( auto const x : want ) if( !PyTypeNum_ISUNSIGNED( type ) || x >= T( 0 ) ) v.push_back( x );
      Ref const a{ npArray( v ) };
      out.obj = Ref{ need( PyArray_FromArray( reinterpret_cast< PyArrayObject * >( a.o ), PyArray_DescrFromType( type ), NPY_ARRAY_CARRAY | NPY_ARRAY_FORCECAST ) ) };
      break;
    }
  }
  // what NumPy makes of it
  Ref const a{ PyArray_FromAny( out.obj, nullptr, 0, 0, 0, nullptr ) };
  if( !a.o ) { PyErr_Clear(); out.verdict = Verdict::refuse; return out; }
  auto * const arr = reinterpret_cast< PyArrayObject * >( a.o );
  if( PyArray_NDIM( arr ) > 1 ) { out.verdict = Verdict::refuse; return out; }
  if( PyArray_TYPE( arr ) != NpType< T >::value && !PyArray_CanCastSafely( PyArray_TYPE( arr ), NpType< T >::value ) )
  { out.verdict = Verdict::refuse; return out; }
  if( !PyArray_ISCARRAY( arr ) ) out.verdict = Verdict::either;
  Ref const c{ need( PyArray_FromArray( arr, PyArray_DescrFromType( NpType< T >::value ), NPY_ARRAY_CARRAY | NPY_ARRAY_FORCECAST ) ) };
  auto * const carr = reinterpret_cast< PyArrayObject * >( c.o );
  T const * const p = static_cast< T const * >( PyArray_DATA( carr ) );
  out.vals.assign( p, p + PyArray_SIZE( carr ) );
  if( out.verdict == Verdict::either ) sim::probe( "odd-layout-argument" );
  return out;
}

template< typename T >
std::vector< T > drawSorted( int const n, int const lo, int const hi )
{
  std::set< T > s;
  for( int i = 0; i < n; ++i ) s.insert( T( sim::range( lo, hi ) ) );
  return std::vector< T >( s.begin(), s.end() );
}

// ------------------------------------------------------------------ an exported container
struct View
{
  Ref array;
  int box;
  void const * data;
  unsigned long stamp;
  bool writeable;
};

struct Box
{
  unsigned long stamp = 0;     // changes whenever the memory may have moved
  virtual ~Box() = default;
  virtual PyObject * make() = 0;                 // export it
  virtual PyTypeObject * type() = 0;
  virtual int dtype() = 0;
  virtual std::string name() = 0;
  virtual void native() = 0;                     // the C++ side works on it
  virtual void call( PyObject * self, int level, std::vector< View > & views, int index ) = 0; // a method from Python
  virtual void compare( char const * what ) = 0; // it holds what it should
  virtual bool canExport() { return true; }
};

char const * opName = "";

/// What is expected of a method.
struct Judge
{
  bool refuse = false;          // must raise
  bool mayRefuse = false;
  std::string raise;            // with this exception
  void no( char const * const exc = "" ) { refuse = true; if( *exc && raise.empty() ) raise = exc; else raise = "-"; }
};

/// True if the operation took place.
bool settle( Result const & r, Judge const & j )
{
  if( r.faulted ) { sim::probe( r.ok() ? "fault-survived" : "fault-reported" ); return r.ok(); }
  if( j.refuse )
  {
    if( r.ok() ) sim::fail( "not-refused", "%s was accepted", opName );
    if( !j.raise.empty() && j.raise != "-" && r.raised != j.raise ) sim::fail( "wrong-exception", "%s raised %s, expected %s", opName, r.raised.c_str(), j.raise.c_str() );
    sim::probe( "refused" );
    return false;
  }
  if( !r.ok() && !j.mayRefuse ) sim::fail( "refused", "%s raised %s", opName, r.raised.c_str() );
  return r.ok();
}

long long asInt( Result const & r )
{
  if( !PyLong_Check( r.value.o ) ) sim::fail( "wrong-result", "%s did not return a number", opName );
  return PyLong_AsLongLong( r.value );
}

void expectInt( Result const & r, long long const v )
{
  long long const got = asInt( r );
  if( got != v ) sim::fail( "wrong-result", "%s returned %lld, expected %lld", opName, got, v );
}
void expectNone( Result const & r )
{ if( r.value.o != Py_None ) sim::fail( "wrong-result", "%s did not return None", opName ); }

/// A NumPy array over the memory of a container.
void checkView( PyObject * const o, void const * const data, int const type, int const ndim, long long const * const dims, long long const * const strides, bool const writeable )
{
  if( !PyArray_Check( o ) ) sim::fail( "wrong-result", "%s did not return a NumPy array", opName );
  auto * const a = reinterpret_cast< PyArrayObject * >( o );
  if( PyArray_TYPE( a ) != type ) sim::fail( "wrong-view", "%s: the view has the value type %d, expected %d", opName, PyArray_TYPE( a ), type );
  if( PyArray_NDIM( a ) != ndim ) sim::fail( "wrong-view", "%s: the view has %d dimensions, expected %d", opName, PyArray_NDIM( a ), ndim );
  long long total = 1;
  for( int i = 0; i < ndim; ++i )
  {
    if( PyArray_DIM( a, i ) != dims[ i ] ) sim::fail( "wrong-view", "%s: dimension %d of the view is %ld, expected %lld", opName, i, long( PyArray_DIM( a, i ) ), dims[ i ] );
    total *= dims[ i ];
  }
  if( total > 0 )
  {
    for( int i = 0; i < ndim; ++i )
      if( dims[ i ] > 1 && PyArray_STRIDE( a, i ) != strides[ i ] * long( PyArray_ITEMSIZE( a ) ) ) sim::fail( "wrong-view", "%s: stride %d of the view is %ld, expected %lld values", opName, i, long( PyArray_STRIDE( a, i ) ), strides[ i ] );
    if( PyArray_DATA( a ) != data ) sim::fail( "wrong-view", "%s: the view is not over the memory of the container", opName );
    if( PyArray_CHKFLAGS( a, NPY_ARRAY_OWNDATA ) ) sim::fail( "wrong-view", "%s: the view owns the memory of the container", opName );
    sim::probe( "nontrivial" );
  }
  if( total > 0 && bool( PyArray_ISWRITEABLE( a ) ) != writeable ) sim::fail( "wrong-view", "%s: the view is %swriteable", opName, writeable ? "not " : "" );
}

/// Write one value through a view; true if it was written. The index is that of the flattened view.
template< typename T >
bool writeThrough( PyObject * const view, long long const flat, T const value, bool const writeable )
{
  Ref const f{ need( PyObject_GetAttrString( view, "flat" ) ) };
  Ref const i{ pyInt( flat ) };
  Ref const v{ need( sim::draw( 2 ) && std::is_integral< T >::value ? PyLong_FromLongLong( static_cast< long long >( value ) ) : PyFloat_FromDouble( double( value ) ) ) };
  int const rc = PyObject_SetItem( f, i, v );
  if( rc != 0 )
  {
    takeException();
    if( writeable ) sim::fail( "write-refused", "%s: a write through the view was refused", opName );
    return false;
  }
  if( !writeable ) sim::fail( "write-not-refused", "%s: a write through a read-only view was not refused", opName );
  sim::probe( "written-through-view" );
  return true;
}

int drawLevel() { return int( sim::draw( 3 ) ); }

// the part that all kinds share: access level
struct LevelOps
{
  static bool handle( PyObject * const self, int & level, bool const withSpace )
  {
    if( sim::draw( 2 ) )
    {
      opName = "get_access_level";
      Result const r = method( self, "get_access_level", {} );
      if( settle( r, Judge{} ) ) expectInt( r, level );
      return true;
    }
    opName = "set_access_level";
    Judge j;
    int const l = drawLevel();
    std::vector< Ref > refs;
    int const kind = int( sim::draw( 10 ) );
    if( kind == 9 ) { refs.push_back( Ref{ need( PyUnicode_FromString( "1" ) ) } ); j.no(); }
    else refs.push_back( pyInt( l ) );
    if( kind == 8 )
    {
      if( withSpace ) { int const space = sim::draw( 2 ) ? 1 : int( sim::draw( 7 ) ) - 3; refs.push_back( pyInt( space ) ); if( space != int( MemorySpace::host ) ) j.no(); }
      else { refs.push_back( pyInt( 0 ) ); j.no(); }
    }
    std::vector< PyObject * > args;
    for( auto const & x : refs ) args.push_back( x );
    sim::log( "set_access_level %d", l );
    Result const r = method( self, "set_access_level", args );
    if( settle( r, j ) ) { expectNone( r ); level = l; }
    else
    {
      Result const g = method( self, "get_access_level", {} );
      if( g.ok() ) expectInt( g, level );
    }
    return true;
  }
};

struct LevelBox : Box
{
  int * levelSlot = nullptr;     // the level of the object the current call is made on
};

// ------------------------------------------------------------------ Array
template< typename T, int N, typename PERM, typename INDEX = std::ptrdiff_t >
struct ArrayBox final : LevelBox
{
  using A = Array< T, N, PERM, INDEX, MallocBuffer >;
  A c, t;

  ArrayBox() { for( int k = 0; k < 2; ++k ) reshape(); }
  ~ArrayBox() override = default;

  PyObject * make() override { return py::create( c ); }
  PyTypeObject * type() override { return py::getPyArrayType(); }
  int dtype() override { return NpType< T >::value; }
  std::string name() override { return std::string( "Array" ) + std::to_string( N ) + "/" + typeid( T ).name(); }
  void reshape()
  {
    INDEX dims[ N ];
    for( int i = 0; i < N; ++i ) dims[ i ] = INDEX( sim::draw( 5 ) );
    c.resize( N, dims );
    { sim::NoTrack q; t.resize( N, dims ); }
    fill();
  }
  void fill()
  {
    sim::NoTrack q;
    for( INDEX i = 0; i < t.size(); ++i ) { T const v = T( sim::range( 0, 99 ) ); c.data()[ i ] = v; t.data()[ i ] = v; }
  }
  void native() override { ++stamp; if( sim::draw( 2 ) ) reshape(); else fill(); }

  void compare( char const * const what ) override
  {
    sim::NoTrack q;
    for( int i = 0; i < N; ++i ) if( c.size( i ) != t.size( i ) || c.strides()[ i ] != t.strides()[ i ] ) sim::fail( "wrong-container", "%s: dimension %d is %lld, expected %lld", what, i, (long long)c.size( i ), (long long)t.size( i ) );
    if( c.getSingleParameterResizeIndex() != t.getSingleParameterResizeIndex() ) sim::fail( "wrong-container", "%s: the resize index is %d, expected %d", what, c.getSingleParameterResizeIndex(), t.getSingleParameterResizeIndex() );
    for( INDEX i = 0; i < t.size(); ++i ) if( !( c.data()[ i ] == t.data()[ i ] ) ) sim::fail( "wrong-container", "%s: value %lld is %g, expected %g", what, (long long)i, double( c.data()[ i ] ), double( t.data()[ i ] ) );
  }

  /// The offset in memory of the k-th value in row-major order of the indices.
  INDEX offsetOf( long long k ) const
  {
    INDEX off = 0;
    for( int i = N - 1; i >= 0; --i ) { off += INDEX( k % t.size( i ) ) * t.strides()[ i ]; k /= t.size( i ); }
    return off;
  }

  void call( PyObject * const self, int const level, std::vector< View > & views, int const index ) override
  {
    bool const resizeable = level >= 2;
    switch( sim::draw( 6 ) )
    {
      case 0:
      {
        opName = "get_single_parameter_resize_index";
        Result const r = method( self, opName, {} );
        if( settle( r, Judge{} ) ) expectInt( r, t.getSingleParameterResizeIndex() );
        break;
      }
      case 1:
      {
        opName = "set_single_parameter_resize_index";
        Judge j;
        int const d = sim::range( -1, N );
        if( d < 0 || d >= N || !resizeable ) j.no();
        sim::log( "set_single_parameter_resize_index %d", d );
        Ref const a{ pyInt( d ) };
        Result const r = method( self, opName, { a } );
        if( settle( r, j ) ) { expectNone( r ); t.setSingleParameterResizeIndex( d ); }
        break;
      }
      case 2:
      {
        opName = "resize";
        Judge j;
        int const n = sim::range( -1, 7 );
        if( n < 0 || !resizeable ) j.no();
        Ref const a{ sim::chance( 1, 10 ) ? Ref{ need( PyUnicode_FromString( "3" ) ) } : pyInt( n ) };
        if( PyUnicode_Check( a.o ) ) j.no();
        sim::log( "resize %d", n );
        Result const r = method( self, opName, { a } );
        if( settle( r, j ) ) { expectNone( r ); sim::NoTrack q; t.resize( INDEX( n ) ); }
        ++stamp;
        break;
      }
      case 3:
      {
        opName = "resize_all";
        Judge j;
        std::vector< long long > dims;
        int const n = sim::chance( 1, 6 ) ? sim::range( 0, N + 1 ) : N;
        for( int i = 0; i < n; ++i ) dims.push_back( sim::chance( 1, 20 ) ? -1 : sim::range( 0, 4 ) );
        Values< long long > v = drawValues( dims );
        j.mayRefuse = v.verdict == Verdict::either;
        if( v.verdict == Verdict::refuse ) j.no();
        if( (int) v.vals.size() != N || !resizeable ) j.no();
        for( auto const d : v.vals ) if( d < 0 ) j.no();
        sim::log( "resize_all, %zu dimensions", v.vals.size() );
        Result const r = method( self, opName, { v.obj } );
        if( settle( r, j ) )
        {
          expectNone( r );
          sim::NoTrack q;
          INDEX d[ N ];
          for( int i = 0; i < N; ++i ) d[ i ] = INDEX( v.vals[ i ] );
          t.resize( N, d );
        }
        ++stamp;
        break;
      }
      default:
      {
        opName = "to_numpy";
        Result r = method( self, opName, {} );
        if( !settle( r, Judge{} ) ) break;
        long long dims[ N ], strides[ N ];
        for( int i = 0; i < N; ++i ) { dims[ i ] = t.size( i ); strides[ i ] = t.strides()[ i ]; }
        checkView( r.value, c.data(), NpType< T >::value, N, dims, strides, level >= 1 );
        if( t.size() > 0 )
        {
          long long const k = sim::draw( std::uint32_t( t.size() ) );
          T const v = T( sim::range( 0, 99 ) );
          if( writeThrough( r.value, k, v, level >= 1 ) ) { sim::NoTrack q; t.data()[ offsetOf( k ) ] = v; }
          views.push_back( View{ std::move( r.value ), index, c.data(), stamp, level >= 1 } );
        }
      }
    }
  }
};

// ------------------------------------------------------------------ Array of strings
struct StringBox final : LevelBox
{
  Array< std::string, 1, RAJA::PERM_I, std::ptrdiff_t, MallocBuffer > c;
  std::vector< std::string > t;
  bool wasInvalid = false;

  StringBox() { native(); }
  PyObject * make() override { return py::create( c ); }
  PyTypeObject * type() override { return py::getPyArrayType(); }
  int dtype() override { return NPY_OBJECT; }
  std::string name() override { return "Array/string"; }
  static std::string drawText()
  {
    switch( sim::draw( 8 ) )
    {
      case 0: return "";
      case 1: return "h\xc3\xa9llo";
      case 2: return std::string( "ab\0cd", 5 );
      case 3: return "\xff\xfe";
      default: return std::string( sim::draw( 30 ), char( 'a' + sim::draw( 26 ) ) );
    }
  }
  void native() override
  {
    ++stamp;
    if( sim::draw( 2 ) || t.empty() ) { std::ptrdiff_t const n = sim::draw( 4 ); c.resize( n ); t.resize( std::size_t( n ) ); }
    for( std::size_t i = 0; i < t.size(); ++i ) { t[ i ] = drawText(); c[ std::ptrdiff_t( i ) ] = t[ i ]; }
  }
  void compare( char const * const what ) override
  {
    if( std::size_t( c.size() ) != t.size() ) sim::fail( "wrong-container", "%s: %zd strings, expected %zu", what, c.size(), t.size() );
    for( std::size_t i = 0; i < t.size(); ++i ) if( c[ std::ptrdiff_t( i ) ] != t[ i ] ) sim::fail( "wrong-container", "%s: string %zu differs", what, i );
  }
  static bool valid( std::string const & s )
  {
    PyObject * const u = PyUnicode_DecodeUTF8( s.data(), Py_ssize_t( s.size() ), nullptr );
    if( !u ) { PyErr_Clear(); return false; }
    Py_DECREF( u );
    return true;
  }
  static void checkList( PyObject * const list, std::vector< std::string > const & t )
  {
    if( !PyList_Check( list ) || PyList_GET_SIZE( list ) != Py_ssize_t( t.size() ) ) sim::fail( "wrong-result", "%s did not return a list of %zu strings", opName, t.size() );
    for( std::size_t i = 0; i < t.size(); ++i )
    {
      PyObject * const s = PyList_GET_ITEM( list, Py_ssize_t( i ) );
      if( !s || !PyUnicode_Check( s ) ) sim::fail( "wrong-result", "%s: item %zu of the list is no string", opName, i );
      Py_ssize_t n = 0;
      char const * const p = PyUnicode_AsUTF8AndSize( s, &n );
      if( !p || std::string( p, std::size_t( n ) ) != t[ i ] ) sim::fail( "wrong-result", "%s: string %zu differs", opName, i );
      if( !t[ i ].empty() ) sim::probe( "nontrivial" );
    }
  }
  void call( PyObject * const self, int const level, std::vector< View > &, int ) override
  {
    switch( sim::draw( 3 ) )
    {
      case 0:
      {
        opName = "resize";
        Judge j;
        int const n = sim::range( -1, 5 );
        if( n < 0 || level < 2 ) j.no();
        sim::log( "resize %d", n );
        Ref const a{ pyInt( n ) };
        Result const r = method( self, opName, { a } );
        if( settle( r, j ) ) t.resize( std::size_t( n ) );
        ++stamp;
        break;
      }
      default:
      {
        opName = "to_numpy";
        Judge j;
        for( auto const & s : t ) if( !valid( s ) ) j.no();
        Result const r = method( self, opName, {} );
        if( settle( r, j ) ) checkList( r.value, t );
      }
    }
  }
};

// ------------------------------------------------------------------ an array of values that NumPy does not have
struct BoolBox final : LevelBox
{
  Array< bool, 1, RAJA::PERM_I, std::ptrdiff_t, MallocBuffer > c;
  BoolBox() { c.resize( sim::draw( 4 ) ); }
  PyObject * make() override { return py::create( c ); }
  PyTypeObject * type() override { return py::getPyArrayType(); }
  int dtype() override { return NPY_NOTYPE; }
  std::string name() override { return "Array/bool"; }
  void native() override { c.resize( sim::draw( 4 ) ); }
  void compare( char const * ) override {}
  void call( PyObject *, int, std::vector< View > &, int ) override {}
  bool canExport() override { return false; }
};

// ------------------------------------------------------------------ SortedArray
template< typename T >
struct SortedBox final : LevelBox
{
  SortedArray< T, std::ptrdiff_t, MallocBuffer > c;
  std::set< T > t;
  SortedBox() { native(); }
  PyObject * make() override { return py::create( c ); }
  PyTypeObject * type() override { return py::getPySortedArrayType(); }
  int dtype() override { return NpType< T >::value; }
  std::string name() override { return std::string( "SortedArray/" ) + typeid( T ).name(); }
  void native() override
  {
    ++stamp;
    for( T const v : drawSorted< T >( 4, 0, 40 ) ) { if( sim::draw( 3 ) ) { c.insert( v ); t.insert( v ); } else { c.remove( v ); t.erase( v ); } }
  }
  void compare( char const * const what ) override
  {
    if( std::size_t( c.size() ) != t.size() ) sim::fail( "wrong-container", "%s: %zd values, expected %zu", what, c.size(), t.size() );
    std::ptrdiff_t i = 0;
    for( T const v : t ) { if( !( c[ i ] == v ) ) sim::fail( "wrong-container", "%s: value %zd differs", what, i ); ++i; }
  }
  void call( PyObject * const self, int const level, std::vector< View > & views, int const index ) override
  {
    int const k = int( sim::draw( 3 ) );
    if( k == 2 )
    {
      opName = "to_numpy";
      Result r = method( self, opName, {} );
      if( !settle( r, Judge{} ) ) return;
      long long const n = (long long) t.size(), one = 1;
      checkView( r.value, c.data(), NpType< T >::value, 1, &n, &one, false );
      if( n > 0 ) { writeThrough( r.value, sim::draw( std::uint32_t( n ) ), T( 3 ), false ); views.push_back( View{ std::move( r.value ), index, c.data(), stamp, false } ); }
      return;
    }
    opName = k == 0 ? "insert" : "remove";
    Values< T > v = drawValues( drawSorted< T >( sim::draw( 5 ), 0, 40 ) );
    Judge j;
    j.mayRefuse = v.verdict == Verdict::either;
    if( v.verdict == Verdict::refuse ) j.no();
    if( level < 2 ) j.no();
    sim::log( "%s, %zu values", opName, v.vals.size() );
    Result const r = method( self, opName, { v.obj } );
    std::set< T > next = t;
    long long count = 0;
    for( T const x : v.vals ) count += k == 0 ? long( next.insert( x ).second ) : long( next.erase( x ) );
    if( settle( r, j ) ) { expectInt( r, count ); t = next; }
    else if( r.faulted && !j.refuse && std::size_t( c.size() ) == next.size() ) t = next;     // only its result could not be returned
    ++stamp;
  }
};

// ------------------------------------------------------------------ ArrayOfArrays and ArrayOfSets
template< typename T, typename INDEX = std::ptrdiff_t >
struct RaggedBox final : LevelBox
{
  ArrayOfArrays< T, INDEX, MallocBuffer > c;
  std::vector< std::vector< T > > t;
  RaggedBox() { native(); }
  PyObject * make() override { return py::create( c ); }
  PyTypeObject * type() override { return py::getPyArrayOfArraysType(); }
  int dtype() override { return NpType< T >::value; }
  std::string name() override { return std::string( "ArrayOfArrays/" ) + typeid( T ).name(); }
  void native() override
  {
    ++stamp;
    if( t.size() > 6 ) { c.eraseArray( 0 ); t.erase( t.begin() ); return; }
    std::vector< T > v;
    for( int n = int( sim::draw( 4 ) ); n > 0; --n ) v.push_back( T( sim::range( 0, 99 ) ) );
    c.appendArray( v.begin(), v.end() );
    t.push_back( v );
  }
  void compare( char const * const what ) override
  {
    if( std::size_t( c.size() ) != t.size() ) sim::fail( "wrong-container", "%s: %lld arrays, expected %zu", what, (long long) c.size(), t.size() );
    for( std::size_t i = 0; i < t.size(); ++i )
    {
      if( std::size_t( c.sizeOfArray( INDEX( i ) ) ) != t[ i ].size() ) sim::fail( "wrong-container", "%s: array %zu has %lld values, expected %zu", what, i, (long long) c.sizeOfArray( INDEX( i ) ), t[ i ].size() );
      for( std::size_t k = 0; k < t[ i ].size(); ++k ) if( !( c( INDEX( i ), INDEX( k ) ) == t[ i ][ k ] ) ) sim::fail( "wrong-container", "%s: value %zu of array %zu differs", what, k, i );
    }
  }
  std::vector< T > drawVals()
  {
    std::vector< T > v;
    for( int n = int( sim::draw( 4 ) ); n > 0; --n ) v.push_back( T( sim::range( 0, 99 ) ) );
    return v;
  }
  void call( PyObject * const self, int const level, std::vector< View > & views, int const index ) override
  {
    long long const n = (long long) t.size();
    Judge j;
    switch( sim::draw( 7 ) )
    {
      case 0:
      {
        opName = "len";
        Result const r = protect( opName, [ & ]{ Py_ssize_t const k = PyObject_Size( self ); return k < 0 ? nullptr : plainInt( k ); } );
        if( settle( r, j ) ) expectInt( r, n );
        break;
      }
      case 1: case 2:
      {
        opName = "getitem";
        long long i = sim::range( int( -n ) - 1, int( n ) );
        if( i < -n || i >= n ) j.no( "IndexError" );
        sim::log( "getitem %lld", i );
        Result r = protect( opName, [ & ]{ return PySequence_GetItem( self, Py_ssize_t( i ) ); } );
        if( !settle( r, j ) ) break;
        if( i < 0 ) i += n;
        long long const m = (long long) t[ std::size_t( i ) ].size(), one = 1;
        void const * const data = c[ INDEX( i ) ].dataIfContiguous();
        checkView( r.value, data, NpType< T >::value, 1, &m, &one, level >= 1 );
        if( m > 0 )
        {
          long long const k = sim::draw( std::uint32_t( m ) );
          T const v = T( sim::range( 0, 99 ) );
          if( writeThrough( r.value, k, v, level >= 1 ) ) t[ std::size_t( i ) ][ std::size_t( k ) ] = v;
          views.push_back( View{ std::move( r.value ), index, data, stamp, level >= 1 } );
        }
        break;
      }
      case 3:
      {
        long long i = sim::range( int( -n ) - 1, int( n ) );
        bool const assign = sim::chance( 1, 8 );
        opName = assign ? "setitem" : "delitem";
        if( i < -n || i >= n || assign || level < 2 ) j.no();
        Ref const v{ pyInt( 5 ) };
        sim::log( "%s %lld", opName, i );
        Result const r = protect( opName, [ & ]{
          int const rc = assign ? PySequence_SetItem( self, Py_ssize_t( i ), v ) : PySequence_DelItem( self, Py_ssize_t( i ) );
          return rc ? nullptr : ( Py_INCREF( Py_None ), Py_None );
        } );
        ++stamp;
        if( !settle( r, j ) ) break;
        if( i < 0 ) i += n;
        t.erase( t.begin() + i );
        break;
      }
      case 4:
      {
        opName = "insert";
        long long const i = sim::range( -1, int( n ) + 1 );
        Values< T > v = drawValues( drawVals() );
        j.mayRefuse = v.verdict == Verdict::either;
        if( v.verdict == Verdict::refuse ) j.no();
        if( i < 0 || i > n || level < 2 ) j.no();
        Ref const a{ pyInt( i ) };
        sim::log( "insert %lld, %zu values", i, v.vals.size() );
        Result const r = method( self, opName, { a, v.obj } );
        ++stamp;
        if( settle( r, j ) ) { expectNone( r ); t.insert( t.begin() + i, v.vals ); }
        break;
      }
      case 5:
      {
        opName = "insert_into";
        long long const i = sim::range( -1, int( n ) );
        long long const m = i >= 0 && i < n ? (long long) t[ std::size_t( i ) ].size() : 0;
        long long const k = sim::range( -1, int( m ) + 1 );
        Values< T > v = drawValues( drawVals() );
        j.mayRefuse = v.verdict == Verdict::either;
        if( v.verdict == Verdict::refuse ) j.no();
        if( i < 0 || i >= n || k < 0 || k > m || level < 2 ) j.no();
        Ref const a{ pyInt( i ) }, b{ pyInt( k ) };
        sim::log( "insert_into %lld %lld, %zu values", i, k, v.vals.size() );
        Result const r = method( self, opName, { a, b, v.obj } );
        ++stamp;
        if( settle( r, j ) ) { expectNone( r ); auto & row = t[ std::size_t( i ) ]; row.insert( row.begin() + k, v.vals.begin(), v.vals.end() ); }
        break;
      }
      default:
      {
        opName = "erase_from";
        long long const i = sim::range( -1, int( n ) );
        long long const m = i >= 0 && i < n ? (long long) t[ std::size_t( i ) ].size() : 0;
        long long const k = sim::range( -1, int( m ) );
        if( i < 0 || i >= n || k < 0 || k >= m || level < 2 ) j.no();
        Ref const a{ pyInt( i ) }, b{ pyInt( k ) };
        sim::log( "erase_from %lld %lld", i, k );
        Result const r = method( self, opName, { a, b } );
        ++stamp;
        if( settle( r, j ) ) { expectNone( r ); auto & row = t[ std::size_t( i ) ]; row.erase( row.begin() + k ); }
      }
    }
  }
};

template< typename T >
struct SetsBox final : LevelBox
{
  ArrayOfSets< T, std::ptrdiff_t, MallocBuffer > c;
  std::vector< std::set< T > > t;
  SetsBox() { native(); }
  PyObject * make() override { return py::create( c ); }
  PyTypeObject * type() override { return py::getPyArrayOfSetsType(); }
  int dtype() override { return NpType< T >::value; }
  std::string name() override { return std::string( "ArrayOfSets/" ) + typeid( T ).name(); }
  void native() override
  {
    ++stamp;
    if( t.size() > 6 ) { c.eraseSet( 0 ); t.erase( t.begin() ); return; }
    c.appendSet( sim::draw( 3 ) );
    t.emplace_back();
    for( T const v : drawSorted< T >( 4, 0, 30 ) ) { c.insertIntoSet( c.size() - 1, v ); t.back().insert( v ); }
  }
  void compare( char const * const what ) override
  {
    if( std::size_t( c.size() ) != t.size() ) sim::fail( "wrong-container", "%s: %zd sets, expected %zu", what, c.size(), t.size() );
    for( std::size_t i = 0; i < t.size(); ++i )
    {
      if( std::size_t( c.sizeOfSet( std::ptrdiff_t( i ) ) ) != t[ i ].size() ) sim::fail( "wrong-container", "%s: set %zu has %zd values, expected %zu", what, i, c.sizeOfSet( std::ptrdiff_t( i ) ), t[ i ].size() );
      std::ptrdiff_t k = 0;
      for( T const v : t[ i ] ) { if( !( c( std::ptrdiff_t( i ), k ) == v ) ) sim::fail( "wrong-container", "%s: value %zd of set %zu differs", what, k, i ); ++k; }
    }
  }
  void call( PyObject * const self, int const level, std::vector< View > & views, int const index ) override
  {
    long long const n = (long long) t.size();
    Judge j;
    switch( sim::draw( 7 ) )
    {
      case 0:
      {
        opName = "len";
        Result const r = protect( opName, [ & ]{ Py_ssize_t const k = PyObject_Size( self ); return k < 0 ? nullptr : plainInt( k ); } );
        if( settle( r, j ) ) expectInt( r, n );
        break;
      }
      case 1: case 2:
      {
        opName = "getitem";
        long long i = sim::range( int( -n ) - 1, int( n ) );
        if( i < -n || i >= n ) j.no( "IndexError" );
        Result r = protect( opName, [ & ]{ return PySequence_GetItem( self, Py_ssize_t( i ) ); } );
        if( !settle( r, j ) ) break;
        if( i < 0 ) i += n;
        long long const m = (long long) t[ std::size_t( i ) ].size(), one = 1;
        void const * const data = c[ std::ptrdiff_t( i ) ].dataIfContiguous();
        checkView( r.value, data, NpType< T >::value, 1, &m, &one, false );
        if( m > 0 ) { writeThrough( r.value, sim::draw( std::uint32_t( m ) ), T( 3 ), false ); views.push_back( View{ std::move( r.value ), index, data, stamp, false } ); }
        break;
      }
      case 3:
      {
        long long i = sim::range( int( -n ) - 1, int( n ) );
        bool const assign = sim::chance( 1, 8 );
        opName = assign ? "setitem" : "delitem";
        if( i < -n || i >= n || assign || level < 2 ) j.no();
        Ref const v{ pyInt( 5 ) };
        sim::log( "%s %lld", opName, i );
        Result const r = protect( opName, [ & ]{
          int const rc = assign ? PySequence_SetItem( self, Py_ssize_t( i ), v ) : PySequence_DelItem( self, Py_ssize_t( i ) );
          return rc ? nullptr : ( Py_INCREF( Py_None ), Py_None );
        } );
        ++stamp;
        if( !settle( r, j ) ) break;
        if( i < 0 ) i += n;
        t.erase( t.begin() + i );
        break;
      }
      case 4:
      {
        opName = "insert";
        long long const i = sim::range( -1, int( n ) + 1 );
        int const cap = sim::range( -2, 4 );
        if( i < 0 || i > n || level < 2 || cap == -1 ) j.no();
        Ref const a{ pyInt( i ) }, b{ pyInt( cap ) };
        sim::log( "insert %lld capacity %d", i, cap );
        std::vector< PyObject * > args{ a };
        if( cap != -2 ) args.push_back( b );
        Result const r = method( self, opName, args );
        ++stamp;
        if( settle( r, j ) )
        {
          expectNone( r );
          t.insert( t.begin() + i, std::set< T >{} );
          if( c.capacityOfSet( std::ptrdiff_t( i ) ) < cap ) sim::fail( "wrong-container", "insert: the new set has the capacity %zd, expected %d", c.capacityOfSet( std::ptrdiff_t( i ) ), cap );
        }
        break;
      }
      default:
      {
        bool const in = sim::draw( 2 );
        opName = in ? "insert_into" : "erase_from";
        long long const i = sim::range( -1, int( n ) );
        Values< T > v = drawValues( drawSorted< T >( sim::draw( 5 ), 0, 30 ) );
        j.mayRefuse = v.verdict == Verdict::either;
        if( v.verdict == Verdict::refuse ) j.no();
        if( i < 0 || i >= n || level < 2 ) j.no();
        Ref const a{ pyInt( i ) };
        sim::log( "%s %lld, %zu values", opName, i, v.vals.size() );
        Result const r = method( self, opName, { a, v.obj } );
        ++stamp;
        if( i < 0 || i >= n ) { settle( r, j ); break; }
        std::set< T > next = t[ std::size_t( i ) ];
        long long count = 0;
        for( T const x : v.vals ) count += in ? long( next.insert( x ).second ) : long( next.erase( x ) );
        if( settle( r, j ) ) { expectInt( r, count ); t[ std::size_t( i ) ] = next; }
        else if( r.faulted && !j.refuse && std::size_t( c.sizeOfSet( std::ptrdiff_t( i ) ) ) == next.size() ) t[ std::size_t( i ) ] = next;
      }
    }
  }
};

// ------------------------------------------------------------------ CRSMatrix
template< typename T, typename COL >
struct MatrixBox final : LevelBox
{
  CRSMatrix< T, COL, std::ptrdiff_t, MallocBuffer > c;
  std::vector< std::map< COL, T > > t;
  long long cols = 0;
  MatrixBox() { cols = sim::range( 1, 8 ); std::ptrdiff_t const n = sim::draw( 4 ); c.resize( n, cols, sim::draw( 3 ) ); t.resize( std::size_t( n ) ); native(); }
  PyObject * make() override { return py::create( c ); }
  PyTypeObject * type() override { return py::getPyCRSMatrixType(); }
  int dtype() override { return NpType< T >::value; }
  std::string name() override { return std::string( "CRSMatrix/" ) + typeid( T ).name(); }
  void native() override
  {
    ++stamp;
    for( std::size_t i = 0; i < t.size(); ++i )
      for( COL const k : drawSorted< COL >( 3, 0, int( cols ) - 1 ) )
      {
        T const v = T( sim::range( 0, 99 ) );
        if( cols > 0 && c.insertNonZero( std::ptrdiff_t( i ), k, v ) ) t[ i ][ k ] = v;
      }
    if( sim::draw( 2 ) ) c.compress();
  }
  void compare( char const * const what ) override
  {
    if( std::size_t( c.numRows() ) != t.size() || c.numColumns() != cols ) sim::fail( "wrong-container", "%s: %zd rows and %zd columns, expected %zu and %lld", what, c.numRows(), c.numColumns(), t.size(), cols );
    for( std::size_t i = 0; i < t.size(); ++i )
    {
      if( std::size_t( c.numNonZeros( std::ptrdiff_t( i ) ) ) != t[ i ].size() ) sim::fail( "wrong-container", "%s: row %zu has %zd entries, expected %zu", what, i, c.numNonZeros( std::ptrdiff_t( i ) ), t[ i ].size() );
      std::ptrdiff_t k = 0;
      for( auto const & e : t[ i ] )
      {
        if( c.getColumns( std::ptrdiff_t( i ) )[ k ] != e.first || !( c.getEntries( std::ptrdiff_t( i ) )[ k ] == e.second ) ) sim::fail( "wrong-container", "%s: entry %zd of row %zu differs", what, k, i );
        ++k;
      }
    }
  }
  bool compressed() const
  {
    for( std::ptrdiff_t i = 0; i < c.numRows(); ++i ) if( c.numNonZeros( i ) != c.nonZeroCapacity( i ) ) return false;
    return true;
  }

  void scipy( PyObject * const self, int const level )
  {
    opName = "to_scipy";
    Judge j;
    if( t.empty() || !compressed() ) j.no();
    Result const r = method( self, opName, {} );
    if( !settle( r, j ) ) return;
    Ref const data{ need( PyObject_GetAttrString( r.value, "data" ) ) }, indices{ need( PyObject_GetAttrString( r.value, "indices" ) ) }, indptr{ need( PyObject_GetAttrString( r.value, "indptr" ) ) },
              shape{ need( PyObject_GetAttrString( r.value, "shape" ) ) };
    if( PyLong_AsLongLong( PyTuple_GetItem( shape, 0 ) ) != (long long) t.size() || PyLong_AsLongLong( PyTuple_GetItem( shape, 1 ) ) != cols ) sim::fail( "wrong-result", "to_scipy: wrong shape" );
    std::vector< long long > wantIndptr{ 0 }, wantIndices;
    std::vector< double > wantData;
    for( auto const & row : t ) { for( auto const & e : row ) { wantIndices.push_back( e.first ); wantData.push_back( double( e.second ) ); } wantIndptr.push_back( (long long) wantIndices.size() ); }
    auto const ints = []( PyObject * const o, std::vector< long long > const & w, char const * const what )
    {
      if( PySequence_Size( o ) != Py_ssize_t( w.size() ) ) sim::fail( "wrong-result", "to_scipy: %s has the wrong length", what );
      for( std::size_t i = 0; i < w.size(); ++i )
      {
        Ref const x{ need( PySequence_GetItem( o, Py_ssize_t( i ) ) ) };
        Ref const y{ need( PyNumber_Long( x ) ) };
        if( PyLong_AsLongLong( y ) != w[ i ] ) sim::fail( "wrong-result", "to_scipy: %s[ %zu ] is wrong", what, i );
      }
    };
    ints( indptr, wantIndptr, "indptr" );
    ints( indices, wantIndices, "indices" );
    if( PySequence_Size( data ) != Py_ssize_t( wantData.size() ) ) sim::fail( "wrong-result", "to_scipy: data has the wrong length" );
    for( std::size_t i = 0; i < wantData.size(); ++i )
    {
      Ref const x{ need( PySequence_GetItem( data, Py_ssize_t( i ) ) ) };
      if( PyFloat_AsDouble( x ) != wantData[ i ] ) sim::fail( "wrong-result", "to_scipy: data[ %zu ] is wrong", i );
      sim::probe( "nontrivial" );
    }
    auto * const a = reinterpret_cast< PyArrayObject * >( data.o );
    if( !wantData.empty() && PyArray_DATA( a ) == c.getEntries( 0 ).dataIfContiguous() && bool( PyArray_ISWRITEABLE( a ) ) != ( level >= 1 ) ) sim::fail( "wrong-view", "to_scipy: the entries are %swriteable", level >= 1 ? "not " : "" );
    sim::probe( "scipy" );
  }

  void call( PyObject * const self, int const level, std::vector< View > & views, int const index ) override
  {
    long long const n = (long long) t.size();
    Judge j;
    switch( sim::draw( 10 ) )
    {
      case 0:
      {
        bool const rows = sim::draw( 2 );
        opName = rows ? "num_rows" : "num_columns";
        Result const r = method( self, opName, {} );
        if( settle( r, j ) ) expectInt( r, rows ? n : cols );
        break;
      }
      case 1: case 2:
      {
        bool const entries = sim::draw( 2 );
        opName = entries ? "get_entries" : "get_columns";
        long long const i = sim::range( -1, int( n ) );
        if( i < 0 || i >= n ) j.no();
        Ref const a{ pyInt( i ) };
        sim::log( "%s %lld", opName, i );
        Result r = method( self, opName, { a } );
        if( !settle( r, j ) ) break;
        auto & row = t[ std::size_t( i ) ];
        long long const m = (long long) row.size(), one = 1;
        bool const w = entries && level >= 1;
        void const * const data = entries ? static_cast< void const * >( c.getEntries( i ).dataIfContiguous() ) : static_cast< void const * >( c.getColumns( i ).dataIfContiguous() );
        checkView( r.value, data, entries ? NpType< T >::value : NpType< COL >::value, 1, &m, &one, w );
        if( m > 0 )
        {
          long long const k = sim::draw( std::uint32_t( m ) );
          auto e = row.begin();
          std::advance( e, k );
          if( entries ) { T const v = T( sim::range( 0, 99 ) ); if( writeThrough( r.value, k, v, w ) ) e->second = v; }
          else writeThrough( r.value, k, COL( 0 ), false );
          views.push_back( View{ std::move( r.value ), index, data, stamp, w } );
        }
        break;
      }
      case 3: scipy( self, level ); break;
      case 4:
      {
        opName = "resize";
        int const rows = sim::range( -1, 5 ), cap = sim::range( -2, 3 );
        long long const nc = sim::chance( 1, 20 ) ? -1 : cols + sim::range( 0, 2 );   // fewer columns leave entries outside
        if( rows < 0 || nc < 0 || cap == -1 || level < 2 ) j.no();
        Ref const a{ pyInt( rows ) }, b{ pyInt( nc ) }, d{ pyInt( cap ) };
        std::vector< PyObject * > args{ a, b };
        if( cap != -2 ) args.push_back( d );
        sim::log( "resize %d %lld capacity %d", rows, nc, cap );
        Result const r = method( self, opName, args );
        ++stamp;
        if( settle( r, j ) )
        {
          expectNone( r );
          for( long long i = n; i < rows; ++i ) if( c.nonZeroCapacity( i ) < cap ) sim::fail( "wrong-container", "resize: new row %lld has the capacity %zd, expected %d", i, c.nonZeroCapacity( i ), cap );
          t.resize( std::size_t( rows ) ); cols = nc;
        }
        break;
      }
      case 5:
      {
        opName = "compress";
        if( level < 2 ) j.no();
        Result const r = method( self, opName, {} );
        ++stamp;
        if( settle( r, j ) ) { expectNone( r ); if( !compressed() ) sim::fail( "wrong-container", "compress: a row has spare capacity" ); if( sim::draw( 2 ) ) scipy( self, level ); }
        break;
      }
      case 6: case 7:
      {
        bool const add = sim::draw( 2 );
        opName = add ? "add_to_row" : "insert_nonzeros";
        long long const i = sim::range( -1, int( n ) );
        std::vector< COL > k;
        if( add )
        {
          if( i >= 0 && i < n ) for( auto const & e : t[ std::size_t( i ) ] ) if( sim::draw( 2 ) ) k.push_back( e.first );
          if( sim::draw( 2 ) ) std::reverse( k.begin(), k.end() );
        }
        else if( cols > 0 ) k = drawSorted< COL >( sim::draw( 4 ), 0, int( cols ) - 1 );
        std::vector< T > v;
        for( std::size_t x = 0; x < k.size(); ++x ) v.push_back( T( sim::range( 0, 99 ) ) );
        if( sim::chance( 1, 10 ) ) { if( sim::draw( 2 ) || v.empty() ) v.push_back( T( 1 ) ); else v.pop_back(); }
        Values< COL > kv = drawValues( k );
        Values< T > vv = drawValues( v );
        j.mayRefuse = kv.verdict == Verdict::either || vv.verdict == Verdict::either;
        if( kv.verdict == Verdict::refuse ) j.no();
        if( vv.verdict == Verdict::refuse ) j.no();
        if( kv.vals.size() != vv.vals.size() || i < 0 || i >= n || level < 2 ) j.no();
        Ref const a{ pyInt( i ) };
        sim::log( "%s %lld, %zu columns %zu values", opName, i, kv.vals.size(), vv.vals.size() );
        Result const r = method( self, opName, { a, kv.obj, vv.obj } );
        ++stamp;
        if( i < 0 || i >= n || kv.vals.size() != vv.vals.size() ) { settle( r, j ); break; }
        auto next = t[ std::size_t( i ) ];
        long long count = 0;
        for( std::size_t x = 0; x < kv.vals.size(); ++x )
        {
          if( add ) next[ kv.vals[ x ] ] = T( next[ kv.vals[ x ] ] + vv.vals[ x ] );
          else count += next.insert( { kv.vals[ x ], vv.vals[ x ] } ).second;
        }
        if( settle( r, j ) ) { if( add ) expectNone( r ); else expectInt( r, count ); t[ std::size_t( i ) ] = next; }
        else if( r.faulted && !j.refuse && !add && std::size_t( c.numNonZeros( i ) ) == next.size() ) t[ std::size_t( i ) ] = next;
        break;
      }
      default:
      {
        opName = "remove_nonzeros";
        long long const i = sim::range( -1, int( n ) );
        Values< COL > kv = drawValues( cols > 0 ? drawSorted< COL >( sim::draw( 4 ), 0, int( cols ) - 1 ) : std::vector< COL >{} );
        j.mayRefuse = kv.verdict == Verdict::either;
        if( kv.verdict == Verdict::refuse ) j.no();
        if( i < 0 || i >= n || level < 2 ) j.no();
        Ref const a{ pyInt( i ) };
        sim::log( "remove_nonzeros %lld, %zu columns", i, kv.vals.size() );
        Result const r = method( self, opName, { a, kv.obj } );
        ++stamp;
        if( i < 0 || i >= n ) { settle( r, j ); break; }
        auto next = t[ std::size_t( i ) ];
        long long count = 0;
        for( auto const k : kv.vals ) count += next.erase( k );
        if( settle( r, j ) ) { expectInt( r, count ); t[ std::size_t( i ) ] = next; }
        else if( r.faulted && !j.refuse && std::size_t( c.numNonZeros( i ) ) == next.size() ) t[ std::size_t( i ) ] = next;
      }
    }
  }
};

std::unique_ptr< Box > makeBox()
{
  switch( sim::draw( 26 ) )
  {
    case 0: return std::make_unique< ArrayBox< int, 1, RAJA::PERM_I > >();
    case 1: return std::make_unique< ArrayBox< double, 2, RAJA::PERM_JI > >();
    case 2: return std::make_unique< ArrayBox< long, 3, RAJA::PERM_KIJ, int > >();
    case 3: return std::make_unique< ArrayBox< double, 2, RAJA::PERM_IJ > >();
    case 4:
      switch( sim::draw( 12 ) )
      {
        case 0: return std::make_unique< ArrayBox< char, 1, RAJA::PERM_I > >();
        case 1: return std::make_unique< ArrayBox< signed char, 1, RAJA::PERM_I > >();
        case 2: return std::make_unique< ArrayBox< unsigned char, 1, RAJA::PERM_I > >();
        case 3: return std::make_unique< ArrayBox< short, 1, RAJA::PERM_I > >();
        case 4: return std::make_unique< ArrayBox< unsigned short, 1, RAJA::PERM_I > >();
        case 5: return std::make_unique< ArrayBox< unsigned int, 1, RAJA::PERM_I > >();
        case 6: return std::make_unique< ArrayBox< unsigned long, 1, RAJA::PERM_I > >();
        case 7: return std::make_unique< ArrayBox< long long, 1, RAJA::PERM_I > >();
        case 8: return std::make_unique< ArrayBox< unsigned long long, 1, RAJA::PERM_I > >();
        case 9: return std::make_unique< ArrayBox< float, 1, RAJA::PERM_I > >();
        case 10: return std::make_unique< ArrayBox< long double, 1, RAJA::PERM_I > >();
        default: return std::make_unique< ArrayBox< float, 4, RAJA::PERM_LKIJ > >();
      }
    case 5: case 6: return std::make_unique< StringBox >();
    case 7: return std::make_unique< BoolBox >();
    case 8: case 9: return std::make_unique< SortedBox< int > >();
    case 10: return std::make_unique< SortedBox< long > >();
    case 11: return std::make_unique< SortedBox< double > >();
    case 12: case 13: return std::make_unique< RaggedBox< long > >();
    case 14: return std::make_unique< RaggedBox< int, int > >();
    case 15: return std::make_unique< RaggedBox< double > >();
    case 16: case 17: return std::make_unique< SetsBox< long > >();
    case 18: return std::make_unique< SetsBox< short > >();
    case 19: case 20: case 21: return std::make_unique< MatrixBox< double, int > >();
    case 22: return std::make_unique< MatrixBox< int, long > >();
    case 23: return std::make_unique< MatrixBox< double, short > >();
    case 24: return std::make_unique< RaggedBox< unsigned char > >();
    default: return std::make_unique< ArrayBox< int, 2, RAJA::PERM_IJ > >();
  }
}

// ------------------------------------------------------------------ what else the bindings offer
/// A Python callable that the simulator implements.
int callCount = 0, callPlan = 0;
std::vector< Ref > kept;
std::string callSaw;
PyObject * calledFromCpp( PyObject *, PyObject * args )
{
  Disarmed d;
  ++callCount;
  callSaw.clear();
  for( Py_ssize_t i = 0; i < PyTuple_GET_SIZE( args ); ++i )
  {
    PyObject * const a = PyTuple_GET_ITEM( args, i );
    callSaw += Py_TYPE( a )->tp_name;
    callSaw += ";";
    if( PyUnicode_Check( a ) ) callSaw += PyUnicode_AsUTF8( a );
    else if( PyArray_Check( a ) ) { Ref const zero{ pyInt( 0 ) }, x{ need( PyObject_GetItem( a, zero ) ) }, y{ need( PyObject_Str( x ) ) }; callSaw += PyUnicode_AsUTF8( y ); }
    else if( callPlan & 2 ) { Py_INCREF( a ); kept.push_back( Ref{ a } ); }
  }
  if( callPlan & 1 ) { PyErr_SetString( PyExc_KeyError, "raised by the callback" ); return nullptr; }
  Py_RETURN_NONE;
}
PyMethodDef callbackDef = { "callback", calledFromCpp, METH_VARARGS, "" };

void callbacks()
{
  opName = "callback";
  Ref const f{ need( PyCFunction_New( &callbackDef, nullptr ) ) };
  Py_ssize_t const before = Py_REFCNT( f.o );
  {
    SortedArray< long, std::ptrdiff_t, MallocBuffer > sorted;
    sorted.insert( 4 );
    using F1 = py::PythonFunction< SortedArray< long, std::ptrdiff_t, MallocBuffer > & >;
    using F2 = py::PythonFunction< int, std::string >;
    using F3 = py::PythonFunction< int, std::string, SortedArray< long, std::ptrdiff_t, MallocBuffer > & >;
    using F4 = py::PythonFunction< SortedArray< long, std::ptrdiff_t, MallocBuffer > &, std::string, int, int, std::string >;
    F1 a( f );
    F2 b( f );
    F3 c3( f );
    F4 d4( f );
    {
      F1 const copy( a );
      F1 other( f );
      if( sim::draw( 2 ) ) other = copy;
      if( sim::draw( 2 ) ) other = std::move( a ), a = other;
      sim::probe( "function-copied" );
    }
    if( Py_REFCNT( f.o ) != before + 4 ) sim::fail( "wrong-reference-count", "four functions over a callable hold %ld references to it", long( Py_REFCNT( f.o ) - before ) );
    for( int k = sim::range( 1, 3 ); k > 0; --k )
    {
      callPlan = int( sim::draw( 4 ) );
      callCount = 0;
      failures = 0;
      bool threw = false;
      int const shape = int( sim::draw( 4 ) );
      int const number = sim::range( 0, 99 );
      bool const stopped = sim::stops( [ & ]{
        Armed arm;
        try
        {
          if( shape == 0 ) a( sorted );
          else if( shape == 1 ) b( number, "text" );
          else if( shape == 2 ) c3( number, "text", sorted );
          else d4( sorted, "first", number, number + 1, "last" );
        }
        catch( py::PythonError const & ) { threw = true; }
      } );
      if( stopped ) { armed = 0; sim::fail( "process-stopped", "a callback ended the process" ); }
      if( threw != ( PyErr_Occurred() != nullptr ) ) sim::fail( "wrong-callback", "PythonError was %sthrown although %s exception is set", threw ? "" : "not ", threw ? "no" : "an" );
      std::string const e = takeException();
      if( failures == 0 )
      {
        if( callCount != 1 ) sim::fail( "wrong-callback", "the callable ran %d times", callCount );
        if( threw != bool( callPlan & 1 ) ) sim::fail( "wrong-callback", "the callable %s but PythonError was %sthrown", callPlan & 1 ? "raised" : "returned", threw ? "" : "not " );
        if( threw && e != "KeyError" ) sim::fail( "wrong-callback", "the exception became %s", e.c_str() );
        std::string const num = "numpy.ndarray;" + std::to_string( number ), set = "pylvarray.SortedArray;";
        std::string const want = shape == 0 ? set : shape == 1 ? num + "str;text" : shape == 2 ? num + "str;text" + set :
                                 set + "str;first" + num + "numpy.ndarray;" + std::to_string( number + 1 ) + "str;last";
        if( callSaw != want ) sim::fail( "wrong-callback", "the callable got %s", callSaw.c_str() );
        sim::probe( "nontrivial" );
      }
      else if( !threw && callCount != 1 ) sim::fail( "wrong-callback", "a failed call is not reported" );
      if( Py_REFCNT( f.o ) != before + 4 ) sim::fail( "wrong-reference-count", "a call changed the references to the callable" );
    }
    kept.clear();
  }
  if( Py_REFCNT( f.o ) != before ) sim::fail( "wrong-reference-count", "%ld references to the callable are left", long( Py_REFCNT( f.o ) - before ) );
}

bool died[ 2 ];
void capsuleDied( PyObject * const c ) { died[ static_cast< char * >( PyCapsule_GetPointer( c, "o" ) ) - static_cast< char * >( static_cast< void * >( died ) ) ] = true; }

/// References that may be the last ones to their object: an object lives exactly as long as something refers to it.
void handles()
{
  opName = "PyObjectRef";
  PyObject * objs[ 2 ] = {};
  bool mine[ 2 ] = {};
  std::vector< py::PyObjectRef<> > refs( 3 );
  int holds[ 3 ] = { -1, -1, -1 };
  auto const held = [ & ]( int const o ) { return int( mine[ o ] ) + int( holds[ 0 ] == o ) + int( holds[ 1 ] == o ) + int( holds[ 2 ] == o ); };
  for( int k = sim::range( 3, 14 ); k > 0; --k )
  {
    int const i = int( sim::draw( 3 ) ), j = int( sim::draw( 3 ) ), o = int( sim::draw( 2 ) );
    switch( sim::draw( 8 ) )
    {
      case 0: case 5:
        if( held( o ) == 0 )
        {
          died[ o ] = false;
          objs[ o ] = need( PyCapsule_New( died + o, "o", capsuleDied ) );
        }
        else Py_INCREF( objs[ o ] );
        sim::log( "ref %d := object %d", i, o );
        holds[ i ] = -1;
        { PyObject * const p = objs[ o ]; refs[ std::size_t( i ) ] = p; }
        holds[ i ] = o;
        break;
      case 1: sim::log( "ref %d = ref %d", i, j ); { auto const & s = refs[ std::size_t( j ) ]; refs[ std::size_t( i ) ] = s; } holds[ i ] = holds[ j ]; break;
      case 2: if( i == j ) break; sim::log( "ref %d = move( ref %d )", i, j ); refs[ std::size_t( i ) ] = std::move( refs[ std::size_t( j ) ] ); holds[ i ] = holds[ j ]; holds[ j ] = -1; break;
      case 3: { sim::log( "copy of ref %d", i ); py::PyObjectRef<> copy( refs[ std::size_t( i ) ] ); if( copy.get() != refs[ std::size_t( i ) ].get() ) sim::fail( "wrong-reference", "a copy refers to another object" ); break; }
      case 4: { sim::log( "release ref %d", i ); PyObject * const p = refs[ std::size_t( i ) ].release(); if( p != ( holds[ i ] < 0 ? nullptr : objs[ holds[ i ] ] ) ) sim::fail( "wrong-reference", "release gave another object" ); Py_XDECREF( p ); holds[ i ] = -1; break; }
      case 6:
        if( held( o ) == 0 ) break;
        sim::log( "%s a reference to object %d", mine[ o ] ? "drop" : "take", o );
        if( mine[ o ] ) { mine[ o ] = false; Py_DECREF( objs[ o ] ); } else { mine[ o ] = true; Py_INCREF( objs[ o ] ); }
        break;
      default: { sim::log( "move ref %d into a new one", i ); py::PyObjectRef<> moved( std::move( refs[ std::size_t( i ) ] ) ); holds[ i ] = -1; }
    }
    for( int x = 0; x < 3; ++x ) if( refs[ std::size_t( x ) ].get() != ( holds[ x ] < 0 ? nullptr : objs[ holds[ x ] ] ) ) sim::fail( "wrong-reference", "reference %d refers to another object", x );
    for( int x = 0; x < 2; ++x )
    {
      if( !objs[ x ] ) continue;
      if( died[ x ] != ( held( x ) == 0 ) ) sim::fail( "wrong-reference-count", "an object with %d references was %sdestroyed", held( x ), died[ x ] ? "" : "not " );
      if( !died[ x ] && Py_REFCNT( objs[ x ] ) != held( x ) ) sim::fail( "wrong-reference-count", "an object has %ld references, expected %d", long( Py_REFCNT( objs[ x ] ) ), held( x ) );
    }
    sim::probe( "nontrivial" );
  }
  for( int x = 0; x < 2; ++x ) if( mine[ x ] ) Py_DECREF( objs[ x ] );
}

void modules()
{
  Ref const own{ need( PyImport_ImportModule( "pylvarray" ) ) };
  if( sim::draw( 3 ) )
  {
    opName = "addPyLvArrayModule";
    Py_ssize_t const before = Py_REFCNT( own.o );
    {
      Ref const m{ need( PyModule_New( "simulated" ) ) };
      bool good = false;
      Result const r = protect( opName, [ & ]{ good = py::addPyLvArrayModule( m ); return good ? ( Py_INCREF( Py_None ), Py_None ) : nullptr; } );
      settle( r, Judge{} );
      bool const has = PyObject_HasAttrString( m, "pylvarray" );
      if( good && !has ) sim::fail( "wrong-result", "the module was not added" );
      Py_ssize_t const want = before + ( has ? 1 : 0 );
      if( Py_REFCNT( own.o ) != want ) sim::fail( "wrong-reference-count", "the module has %ld references after it was %s, expected %ld", long( Py_REFCNT( own.o ) ), has ? "added" : "not added", long( want ) );
      sim::probe( "nontrivial" );
    }
    if( Py_REFCNT( own.o ) != before ) sim::fail( "wrong-reference-count", "the module has %ld references, expected %ld", long( Py_REFCNT( own.o ) ), long( before ) );
    return;
  }
  opName = "PyInit_pylvarray";
  PyTypeObject * const types[] = { py::getPyArrayType(), py::getPySortedArrayType(), py::getPyArrayOfArraysType(), py::getPyArrayOfSetsType(), py::getPyCRSMatrixType() };
  static char const * const NAMES[] = { "Array", "SortedArray", "ArrayOfArrays", "ArrayOfSets", "CRSMatrix" };
  Py_ssize_t before[ 5 ];
  for( int i = 0; i < 5; ++i ) before[ i ] = Py_REFCNT( types[ i ] );
  {
    Result const r = protect( opName, []{ return PyInit_pylvarray(); } );
    if( settle( r, Judge{} ) )
    {
      for( int i = 0; i < 5; ++i )
      {
        Ref const t{ need( PyObject_GetAttrString( r.value, NAMES[ i ] ) ) };
        if( t.o != reinterpret_cast< PyObject * >( types[ i ] ) ) sim::fail( "wrong-result", "the module's %s is another type", NAMES[ i ] );
      }
      static char const * const CONSTS[] = { "READ_ONLY", "MODIFIABLE", "RESIZEABLE", "CPU" };
      long const want[] = { 0, 1, 2, long( MemorySpace::host ) };
      for( int i = 0; i < 4; ++i ) { Ref const c{ need( PyObject_GetAttrString( r.value, CONSTS[ i ] ) ) }; if( PyLong_AsLong( c ) != want[ i ] ) sim::fail( "wrong-result", "the constant %s is %ld", CONSTS[ i ], PyLong_AsLong( c ) ); }
    }
  }
  for( int i = 0; i < 5; ++i ) if( Py_REFCNT( types[ i ] ) != before[ i ] ) sim::fail( "wrong-reference-count", "type %s has %ld references more after the module went", NAMES[ i ], long( Py_REFCNT( types[ i ] ) - before[ i ] ) );
}

/// An object that is gone may be anything by now.
UNSEEN bool isNumber( PyObject * const o, long long const want ) { return PyLong_Check( o ) && Py_REFCNT( o ) >= 1 && PyLong_AsLongLong( o ) == want; }

/// An array of CuPy over memory of a device. CuPy itself is a stand-in that returns what it was given.
void deviceArray()
{
  opName = "CuPy array";
  std::type_index const types[] = { typeid( long ), typeid( int ), typeid( double ), typeid( bool ) };
  int const numpyTypes[] = { NPY_LONG, NPY_INT, NPY_DOUBLE };
  long long const sizes[] = { sizeof( long ), sizeof( int ), sizeof( double ) };
  int const k = int( sim::draw( 40 ) ) == 0 ? 3 : int( sim::draw( 3 ) );
  int const ndim = sim::range( 1, 4 );
  std::vector< long long > dims, strides( std::size_t( ndim ), 1 );
  for( int i = 0; i < ndim; ++i ) dims.push_back( sim::draw( 2 ) ? sim::range( 0, 9 ) : sim::range( 300, 4000 ) );
  long long total = 1;
  for( int i = ndim - 1; i >= 0; --i ) { strides[ std::size_t( i ) ] = total; total *= dims[ std::size_t( i ) ]; }
  if( ndim == 2 && sim::draw( 2 ) ) { strides[ 0 ] = 1; strides[ 1 ] = dims[ 0 ]; }
  auto * const data = reinterpret_cast< void * >( std::uintptr_t( 0x7000000000 + 16 * sim::draw( 1u << 20 ) ) );
  Judge j;
  if( k == 3 ) j.no( "TypeError" );
  Result const r = protect( opName, [ & ]{ return py::internal::createCupyArrayImpl( data, types[ k ], sim::draw( 2 ) != 0, ndim, dims.data(), strides.data() ); } );
  if( !settle( r, j ) ) return;
  // ( pointer, bytes, offset, type, strides, shape )
  auto const number = [ & ]( PyObject * const o, long long const want, char const * const what ) {
    if( !isNumber( o, want ) ) sim::fail( "wrong-view", "CuPy did not get %lld for the %s", want, what );
  };
  auto const item = [ & ]( PyObject * const t, int const i ) {
    if( !PyTuple_Check( t ) || PyTuple_GET_SIZE( t ) <= i ) sim::fail( "wrong-view", "CuPy got no tuple with %d items", i + 1 );
    return PyTuple_GET_ITEM( t, i );
  };
  number( item( r.value, 0 ), (long long) reinterpret_cast< std::uintptr_t >( data ), "memory" );
  number( item( r.value, 1 ), total * sizes[ k ], "size of the memory" );
  number( item( r.value, 2 ), 0, "offset" );
  Ref const want{ need( PyArray_TypeObjectFromType( numpyTypes[ k ] ) ) };
  if( item( r.value, 3 ) != want.o ) sim::fail( "wrong-view", "CuPy got another type of values" );
  for( int which = 4; which < 6; ++which )
  {
    PyObject * const t = item( r.value, which );
    if( !PyTuple_Check( t ) || PyTuple_GET_SIZE( t ) != ndim ) sim::fail( "wrong-view", "CuPy got %s for another number of dimensions", which == 4 ? "strides" : "lengths" );
    for( int i = 0; i < ndim; ++i )
      number( PyTuple_GET_ITEM( t, i ), which == 4 ? strides[ std::size_t( i ) ] * sizes[ k ] : dims[ std::size_t( i ) ], which == 4 ? "stride" : "length" );
  }
  sim::probe( "device-array" );
  sim::probe( "nontrivial" );
}

void scalars()
{
  switch( sim::draw( 5 ) )
  {
    case 3: case 4: deviceArray(); break;
    case 0:
    {
      opName = "create scalar";
      double value = sim::range( 0, 99 );
      Result const r = protect( opName, [ & ]{ return py::create( value ); } );
      long long const one = 1;
      if( !settle( r, Judge{} ) ) break;
      checkView( r.value, &value, NPY_DOUBLE, 1, &one, &one, true );
      if( writeThrough( r.value, 0, 7.0, true ) && value != 7.0 ) sim::fail( "wrong-view", "the scalar was not written" );
      long const fixed = 5;
      Result const c = protect( opName, [ & ]{ return py::create( fixed ); } );
      if( settle( c, Judge{} ) ) { checkView( c.value, &fixed, NPY_LONG, 1, &one, &one, false ); writeThrough( c.value, 0, 6L, false ); }
      break;
    }
    case 1:
    {
      opName = "create string";
      std::string const s = StringBox::drawText();
      Judge j;
      if( !StringBox::valid( s ) ) j.no();
      Result const r = protect( opName, [ & ]{ return py::create( s ); } );
      if( !settle( r, j ) ) break;
      Py_ssize_t n = 0;
      char const * const p = PyUnicode_AsUTF8AndSize( r.value, &n );
      if( !p || std::string( p, std::size_t( n ) ) != s ) sim::fail( "wrong-result", "create: the string differs" );
      sim::probe( "nontrivial" );
      break;
    }
    default:
    {
      opName = "create strings";
      std::vector< std::string > v;
      for( int k = int( sim::draw( 4 ) ); k > 0; --k ) v.push_back( StringBox::drawText() );
      Judge j;
      for( auto const & s : v ) if( !StringBox::valid( s ) ) j.no();
      Result const r = protect( opName, [ & ]{ return py::create( v ); } );
      if( settle( r, j ) ) StringBox::checkList( r.value, v );
    }
  }
}

std::vector< std::pair< char const *, int > > const METHODS[] = {
  { { "get_single_parameter_resize_index", 0 }, { "set_single_parameter_resize_index", 1 }, { "resize", 1 }, { "resize_all", 3 }, { "to_numpy", 0 }, { "get_access_level", 0 }, { "set_access_level", 1 } },
  { { "insert", 3 }, { "remove", 3 }, { "to_numpy", 0 }, { "get_access_level", 0 }, { "set_access_level", 1 } },
  { { "insert", 13 }, { "insert_into", 113 }, { "erase_from", 11 }, { "get_access_level", 0 }, { "set_access_level", 1 } },
  { { "insert", 1 }, { "insert_into", 13 }, { "erase_from", 13 }, { "get_access_level", 0 }, { "set_access_level", 1 } },
  { { "num_rows", 0 }, { "num_columns", 0 }, { "get_columns", 1 }, { "get_entries", 1 }, { "to_scipy", 0 }, { "resize", 11 }, { "compress", 0 }, { "insert_nonzeros", 133 }, { "remove_nonzeros", 13 },
    { "add_to_row", 133 }, { "get_access_level", 0 }, { "set_access_level", 1 } } };

/// Objects that Python made itself have no container.
void uninitialised()
{
  PyTypeObject * const types[] = { py::getPyArrayType(), py::getPySortedArrayType(), py::getPyArrayOfArraysType(), py::getPyArrayOfSetsType(), py::getPyCRSMatrixType() };
  int const k = int( sim::draw( 5 ) );
  Ref const o{ PyObject_CallNoArgs( reinterpret_cast< PyObject * >( types[ k ] ) ) };
  if( !o.o ) { takeException(); return; }           // not constructible from Python: as documented
  sim::probe( "made-in-python" );
  Judge j;
  j.no();
  int const m = int( sim::draw( std::uint32_t( METHODS[ k ].size() + 4 ) ) );
  if( m < (int) METHODS[ k ].size() )
  {
    opName = METHODS[ k ][ std::size_t( m ) ].first;
    std::vector< Ref > refs;
    std::vector< PyObject * > args;
    for( int code = METHODS[ k ][ std::size_t( m ) ].second; code > 0; code /= 10 ) refs.insert( refs.begin(), code % 10 == 1 ? pyInt( 0 ) : npArray( std::vector< long >{ 1 } ) );
    for( auto const & r : refs ) args.push_back( r );
    sim::log( "%s of %s made in Python", opName, types[ k ]->tp_name );
    settle( method( o, opName, args ), j );
  }
  else if( k == 2 || k == 3 )
  {
    switch( m - (int) METHODS[ k ].size() )
    {
      case 0: opName = "len"; settle( protect( opName, [ & ]{ return PyObject_Size( o ) < 0 ? nullptr : ( Py_INCREF( Py_None ), Py_None ); } ), j ); break;
      case 1: opName = "getitem"; settle( protect( opName, [ & ]{ return PySequence_GetItem( o, 0 ); } ), j ); break;
      case 2: opName = "delitem"; settle( protect( opName, [ & ]{ return PySequence_DelItem( o, 0 ) < 0 ? nullptr : ( Py_INCREF( Py_None ), Py_None ); } ), j ); break;
      default: opName = "repr"; settle( protect( opName, [ & ]{ return PyObject_Repr( o ); } ), j );
    }
  }
  else { opName = "repr"; settle( protect( opName, [ & ]{ return PyObject_Repr( o ); } ), j ); }
}

struct Handle { Ref obj; int box; int level; };

void world( int const length )
{
  std::vector< std::unique_ptr< Box > > boxes;
  std::vector< Handle > hs;
  std::vector< View > views;
  Ref cage{ need( PyList_New( 0 ) ) };
  int const nBoxes = sim::range( 1, 3 );
  for( int i = 0; i < nBoxes; ++i ) boxes.push_back( makeBox() );
  for( auto const & b : boxes ) sim::log( "container %s", b->name().c_str() );
  for( int step = 0; step < length && sim::more( 24 ); ++step )
  {
    sim::Span s;
    ++curOp;
    int const bi = int( sim::draw( std::uint32_t( boxes.size() ) ) );
    int hi = -1;
    for( int k = 0; k < 3 && hi < 0 && !hs.empty(); ++k ) { hi = int( sim::draw( std::uint32_t( hs.size() ) ) ); }
    switch( sim::draw( 28 ) )
    {
      case 0: case 1:
      {
        opName = "export";
        sim::log( "export container %d", bi );
        Py_ssize_t const typeRefs = Py_REFCNT( boxes[ std::size_t( bi ) ]->type() );
        Result r = protect( opName, [ & ]{ return boxes[ std::size_t( bi ) ]->make(); } );
        Judge j;
        if( !boxes[ std::size_t( bi ) ]->canExport() ) j.no();
        if( !settle( r, j ) ) { if( Py_REFCNT( boxes[ std::size_t( bi ) ]->type() ) != typeRefs ) sim::fail( "wrong-reference-count", "a refused export changed the references to its type" ); break; }
        if( Py_TYPE( r.value.o ) != boxes[ std::size_t( bi ) ]->type() ) sim::fail( "wrong-result", "export gave an object of type %s", Py_TYPE( r.value.o )->tp_name );
        if( Py_REFCNT( r.value.o ) != 1 ) sim::fail( "wrong-reference-count", "a new object has %ld references", long( Py_REFCNT( r.value.o ) ) );
        hs.push_back( Handle{ std::move( r.value ), bi, 0 } );
        if( sim::draw( 2 ) )
        {
          Ref const two{ pyInt( 2 ) };
          opName = "set_access_level";
          if( settle( method( hs.back().obj, opName, { two } ), Judge{} ) ) hs.back().level = 2;
        }
        break;
      }
      case 2:
        if( hi < 0 ) break;
        sim::log( "drop object %d", hi );
        hs.erase( hs.begin() + hi );
        break;
      case 3:
        if( views.empty() ) break;
        views.erase( views.begin() + sim::draw( std::uint32_t( views.size() ) ) );
        break;
      case 4:
        if( hi < 0 ) break;
        sim::log( "object %d into a cycle", hi );
        {
          Ref const l{ need( PyList_New( 0 ) ) };
          if( PyList_Append( l, l ) || PyList_Append( l, hs[ std::size_t( hi ) ].obj ) ) harness( "append" );
        }
        if( sim::draw( 2 ) ) hs.erase( hs.begin() + hi );
        if( sim::draw( 2 ) ) collect();
        sim::probe( "cycle" );
        break;
      case 5: sim::log( "the C++ side works on container %d", bi ); boxes[ std::size_t( bi ) ]->native(); break;
      case 6:
        if( hi < 0 ) break;
        {
          Handle & h = hs[ std::size_t( hi ) ];
          if( sim::draw( 2 ) )
          {
            opName = "repr";
            Result const r = protect( opName, [ & ]{ return PyObject_Repr( h.obj ); } );
            if( settle( r, Judge{} ) && ( !PyUnicode_Check( r.value.o ) || !std::strstr( PyUnicode_AsUTF8( r.value ), boxes[ std::size_t( h.box ) ]->name().substr( 0, 3 ).c_str() ) ) )
              sim::fail( "wrong-result", "repr does not name the container" );
          }
          else
          {
            opName = "dtype";
            Ref const d{ PyObject_GetAttrString( h.obj, "dtype" ) };
            if( !d.o ) sim::fail( "refused", "dtype raised %s", takeException().c_str() );
            Ref const want{ need( PyArray_TypeObjectFromType( boxes[ std::size_t( h.box ) ]->dtype() ) ) };
            if( d.o != want.o ) sim::fail( "wrong-result", "dtype is another type" );
          }
        }
        break;
      case 7:
        if( views.empty() ) break;
        {
          // a view stays valid, without the object it came from, for as long as the memory does
          View & v = views[ sim::draw( std::uint32_t( views.size() ) ) ];
          auto * const a = reinterpret_cast< PyArrayObject * >( v.array.o );
          if( PyArray_DATA( a ) != v.data || bool( PyArray_ISWRITEABLE( a ) ) != v.writeable ) sim::fail( "wrong-view", "a view changed after it was made" );
          if( Py_REFCNT( v.array.o ) != 1 ) sim::fail( "wrong-reference-count", "a view has %ld references", long( Py_REFCNT( v.array.o ) ) );
          if( boxes[ std::size_t( v.box ) ]->stamp == v.stamp ) sim::probe( "view-outlives" );
        }
        break;
      case 8: callbacks(); break;
      case 9: handles(); break;
      case 10: modules(); break;
      case 11: scalars(); break;
      case 12: uninitialised(); break;
      case 13:
        if( hi < 0 ) break;
        {
          Handle & h = hs[ std::size_t( hi ) ];
          bool const withSpace = h.obj.o->ob_type != py::getPyArrayOfArraysType() && h.obj.o->ob_type != py::getPyArrayOfSetsType();
          LevelOps::handle( h.obj, h.level, withSpace );
        }
        break;
      case 14:
        if( sim::chance( 1, 4 ) && boxes.size() > 1 )
        {
          // the container goes; only dropping the objects is left to do with them
          sim::log( "container %d is destroyed", bi );
          boxes[ std::size_t( bi ) ].reset();
          std::vector< Handle > left; std::vector< View > leftViews;
          for( auto & h : hs ) if( h.box != bi ) left.push_back( std::move( h ) );
          for( auto & v : views ) if( v.box != bi ) leftViews.push_back( std::move( v ) );
          hs = std::move( left ); views = std::move( leftViews );
          boxes[ std::size_t( bi ) ] = makeBox();
          sim::probe( "container-destroyed" );
        }
        break;
      default:
        if( hi < 0 ) break;
        {
          Handle & h = hs[ std::size_t( hi ) ];
          sim::log( "object %d (container %d, level %d):", hi, h.box, h.level );
          Box & b = *boxes[ std::size_t( h.box ) ];
          b.call( h.obj, h.level, views, h.box );
          sim::log( "  %s", opName );
        }
    }
    for( auto & b : boxes ) b->compare( opName );
    if( PyErr_Occurred() ) sim::fail( "pending-exception", "%s left an exception pending: %s", opName, takeException().c_str() );
  }
}

/// Everything the interpreter allocates once and keeps is allocated before the first run.
void oneRun( int const length )
{
  world( length );
  std::vector< Ref >().swap( kept );
  std::string().swap( callSaw );
  PyType_ClearCache();
  collect();
}

} // namespace

void scenarioWarmup()
{
  setenv( "OPENBLAS_NUM_THREADS", "1", 1 );
  setenv( "OMP_NUM_THREADS", "1", 1 );
  if( PyImport_AppendInittab( "pylvarray", PyInit_pylvarray ) < 0 ) std::_Exit( 70 );
  PyConfig cfg;
  PyConfig_InitIsolatedConfig( &cfg );
  cfg.use_hash_seed = 1; cfg.hash_seed = 0;
  cfg.install_signal_handlers = 0;
  cfg.write_bytecode = 0;
  cfg.site_import = 0;
  PyStatus const st = Py_InitializeFromConfig( &cfg );
  if( PyStatus_Exception( st ) ) { std::fprintf( stderr, "Python does not start: %s\n", st.err_msg ); std::_Exit( 70 ); }
  PyConfig_Clear( &cfg );
  if( PyRun_SimpleString( "import sys\nsys.path.insert( 0, '" LVSIM_SITE "' )\n"
                          "import numpy, scipy.sparse, gc\ngc.disable()\n"
                          "class Broken:\n  def __array__( self, *a, **k ):\n    raise OverflowError( 'no array' )\n"
                          "broken = Broken()\n"
                          "import pylvarray\n"
                          "import types\n"
                          "cupy = types.ModuleType( 'cupy' )\n"
                          "cupy.cuda = types.ModuleType( 'cupy.cuda' )\n"
                          "cupy.cuda.UnownedMemory = lambda ptr, size, owner, device_id = -1: ( ptr, size )\n"
                          "cupy.cuda.MemoryPointer = lambda mem, offset: ( mem, offset )\n"
                          "cupy.ndarray = lambda shape, dtype = float, memptr = None, strides = None, order = 'C': ( memptr[ 0 ][ 0 ], memptr[ 0 ][ 1 ], memptr[ 1 ], dtype, strides, shape )\n"
                          "sys.modules[ 'cupy' ] = cupy\n"
                          "sys.modules[ 'cupy.cuda' ] = cupy.cuda\n"
                          "sys.path.insert( 0, '" LVSIM_PYDIR "' )\n"
                          "import cupy_helper\n"
                          "sys.path.pop( 0 )\n"
                          "for i in range( 8 ): cupy_helper.create_cupy_array( 1, 2, 'd', ( 3, ), ( 4, ) )\n"
                          "for t in ( 'd', 'f', 'l', 'i' ):\n"
                          "  for c in ( 'l', 'i' ):\n"
                          "    for o in ( 'l', 'i' ):\n"
                          "      m = scipy.sparse.csr_matrix( ( numpy.ones( 2, t ), numpy.array( [ 0, 1 ], c ), numpy.array( [ 0, 1, 2 ], o ) ), ( 2, 2 ) )\n"
                          "      m.toarray(), repr( m )\n"
                          "for a in numpy.typecodes[ 'AllInteger' ] + 'efdg?OSU':\n"
                          "  for b in numpy.typecodes[ 'AllInteger' ] + 'efdg?OSU':\n"
                          "    numpy.can_cast( a, b )\n"
                          "    try: numpy.zeros( 2, a ).astype( b ); numpy.zeros( 2, a ).astype( numpy.dtype( b ).newbyteorder( 'S' ) ); numpy.zeros( 2, numpy.dtype( a ).newbyteorder( 'S' ) ).astype( b )\n"
                          "    except Exception: pass\n"
                          "del m, a, b, c, o, t\n" ) )
  { PyErr_Print(); std::fprintf( stderr, "NumPy is not there\n" ); std::_Exit( 70 ); }
  if( _import_array() < 0 ) { PyErr_Print(); std::_Exit( 70 ); }
  brokenArray = PyObject_GetAttrString( PyImport_AddModule( "__main__" ), "broken" );
  py::import_array_wrapper();
  realNewFromDescr = PyArray_NewFromDescr; realCast = PyArray_CastToType; realConverter = PyArray_Converter; realTypeObject = PyArray_TypeObjectFromType;
  hook( realNewFromDescr, newFromDescr ); hook( realCast, castToType ); hook( realConverter, converter ); hook( realTypeObject, typeObjectFromType );
  PyMem_GetAllocator( PYMEM_DOMAIN_OBJ, &under );
  PyMemAllocatorEx mine{ nullptr, hookMalloc, hookCalloc, hookRealloc, hookFree };
  PyMem_SetAllocator( PYMEM_DOMAIN_OBJ, &mine );
  collect();
  PyGC_Enable();
  if( PyRun_SimpleString( "gc.collect()\ngc.freeze()\ngc.disable()\n" ) ) std::_Exit( 70 );
}

void scenario()
{
  failurePermille = sim::draw( 2 ) ? 0 : ( 20u << sim::draw( 3 ) );
  sim::setFaultsEnabled( failurePermille != 0 );
  sim::HeapStats const h0 = sim::heap();
  tracking = true;
  oneRun( 60 );
  sim::HeapStats const h1 = sim::heap();
  if( h1.blocks != h0.blocks ) sim::fail( "leak", "%ld blocks of the bindings are left", long( h1.blocks - h0.blocks ) );
  sim::NoTrack quiet;
  std::vector< std::pair< unsigned, std::size_t > > left;      // in an order that does not depend on the addresses
  for( unsigned i = 0; i < LIVE; ++i )
    if( live[ i ].p && live[ i ].p != TOMB ) left.emplace_back( live[ i ].op, live[ i ].n );
  std::sort( left.begin(), left.end() );
  for( auto const & l : left ) sim::log( "left: %zu bytes from step %u", l.second, l.first );
  if( !left.empty() ) sim::fail( "leak", "%u blocks of Python objects are left, one of step %u", unsigned( left.size() ), left[ 0 ].first );
}
