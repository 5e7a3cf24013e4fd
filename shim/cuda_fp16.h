// Stand-in for CUDA's half precision header, so that the LVARRAY_USE_CUDA configuration compiles for the host.
#pragma once
#include <cmath>

#define __host__
#define __device__
#define __global__
#define CUDART_VERSION 12000

struct __half
{
  float v;
  __half() = default;
  __half( float f ): v( f ) {}
  __half( double f ): v( float( f ) ) {}
  __half( int f ): v( float( f ) ) {}
  operator float() const { return v; }
};
struct __half2 { __half x, y; __half2() = default; __half2( __half a, __half b ): x( a ), y( b ) {} };
struct float2 { float x, y; };

inline __half __float2half_rn( float f ) { return __half( f ); }
inline __half2 __float2half2_rn( float f ) { return __half2( f, f ); }
inline __half2 __floats2half2_rn( float a, float b ) { return __half2( a, b ); }
inline __half2 __half2half2( __half a ) { return __half2( a, a ); }
inline __half2 __halves2half2( __half a, __half b ) { return __half2( a, b ); }
inline float2 __half22float2( __half2 a ) { return float2{ a.x.v, a.y.v }; }
inline __half __low2half( __half2 a ) { return a.x; }
inline __half __high2half( __half2 a ) { return a.y; }
inline bool __hlt( __half a, __half b ) { return a.v < b.v; }
inline __half __habs( __half a ) { return std::fabs( a.v ); }
inline __half2 __habs2( __half2 a ) { return __half2( std::fabs( a.x.v ), std::fabs( a.y.v ) ); }
inline __half __hmax( __half a, __half b ) { return a.v < b.v ? b : a; }
inline __half __hmin( __half a, __half b ) { return b.v < a.v ? b : a; }
inline __half2 __hmax2( __half2 a, __half2 b ) { return __half2( __hmax( a.x, b.x ), __hmax( a.y, b.y ) ); }
inline __half2 __hmin2( __half2 a, __half2 b ) { return __half2( __hmin( a.x, b.x ), __hmin( a.y, b.y ) ); }
#define LVSIM_CMP2( N, OP ) inline __half2 N( __half2 a, __half2 b ) { return __half2( a.x.v OP b.x.v ? 1.f : 0.f, a.y.v OP b.y.v ? 1.f : 0.f ); }
LVSIM_CMP2( __hlt2, < )
LVSIM_CMP2( __hge2, >= )
LVSIM_CMP2( __hle2, <= )
LVSIM_CMP2( __hgt2, > )
#undef LVSIM_CMP2
#define LVSIM_FN( N, EXPR ) inline __half h##N( __half a ) { float const v = a.v; return EXPR; } \
                            inline __half2 h2##N( __half2 a ) { return __half2( h##N( a.x ), h##N( a.y ) ); }
LVSIM_FN( sqrt, std::sqrt( v ) )
LVSIM_FN( rsqrt, 1 / std::sqrt( v ) )
LVSIM_FN( sin, std::sin( v ) )
LVSIM_FN( cos, std::cos( v ) )
LVSIM_FN( exp, std::exp( v ) )
LVSIM_FN( log, std::log( v ) )
#undef LVSIM_FN
inline __half2 operator+( __half2 a, __half2 b ) { return __half2( a.x.v + b.x.v, a.y.v + b.y.v ); }
inline __half2 operator-( __half2 a, __half2 b ) { return __half2( a.x.v - b.x.v, a.y.v - b.y.v ); }
inline __half2 operator*( __half2 a, __half2 b ) { return __half2( a.x.v * b.x.v, a.y.v * b.y.v ); }
inline __half2 operator/( __half2 a, __half2 b ) { return __half2( a.x.v / b.x.v, a.y.v / b.y.v ); }
inline __half2 operator-( __half2 a ) { return __half2( -a.x.v, -a.y.v ); }
