// C13: code of another translation unit that uses containers with the same allocators.
#include "common.hpp"
#include "ChaiBuffer.hpp"

using namespace LvArray;
using namespace scn;

void otherUnit()
{
  Array< float, 1, RAJA::PERM_I, I, ChaiBuffer > a;
  std::vector< float > m;
  for( int n = 0; n < 6; ++n )
  {
    switch( sim::draw( 3 ) )
    {
      case 0: { I const k = sim::range( 0, 6 ); a.resize( k ); m.resize( std::size_t( k ), 0.0f ); break; }
      case 1: { float const v = float( sim::draw( 100 ) ); a.emplace_back( v ); m.push_back( v ); break; }
      default: { Array< float, 1, RAJA::PERM_I, I, ChaiBuffer > b( a ); a = std::move( b ); }
    }
    SIM_CHECK( a.size() == I( m.size() ), "wrong-size", "the size is %lld instead of %zu", (long long) a.size(), m.size() );
    for( std::size_t i = 0; i < m.size(); ++i )
      SIM_CHECK( a[ I( i ) ] == m[ i ], "wrong-value", "code of the other unit sees a wrong value at %zu", i );
  }
  sim::probe( "other-unit" );
}
