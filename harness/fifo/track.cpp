#include "track.hpp"
#include <cstdint>
#include <cstring>
namespace track
{
void (*report)( const char* ) = nullptr;
/** open addressing; tombstones keep the key with alive = false **/
struct slot { const void *p; bool alive; };
static const std::size_t N = 1 << 20;
static slot  *tab = nullptr;
static std::size_t used_slots = 0;
static long   alive_n = 0, count = 0;
static slot storage[ N ];
static slot *find( const void *p )
{
   tab = storage;
   std::size_t h = ( (std::uintptr_t) p >> 3 ) * 0x9E3779B97F4A7C15ULL >> 44;
   for( ;; h = ( h + 1 ) & ( N - 1 ) )
   {
      if( tab[ h ].p == p ) return( &tab[ h ] );
      if( tab[ h ].p == nullptr )
      {
         if( used_slots + 1024 > N ) { reset(); return( find( p ) ); }
         tab[ h ].p = p; tab[ h ].alive = false; used_slots++;
         return( &tab[ h ] );
      }
   }
}
void born( const void *p )
{
   slot *s = find( p );
   if( s->alive ) { if( report ) report( "lifetime: element constructed over a live element" ); return; }
   s->alive = true; alive_n++;
}
void died( const void *p )
{
   slot *s = find( p );
   if( ! s->alive ) { if( report ) report( "lifetime: destruction of something that is not a live element" ); return; }
   s->alive = false; alive_n--;
}
void used( const void *p )
{
   if( ! find( p )->alive && report ) report( "lifetime: use of something that is not a live element" );
}
void reset() { if( used_slots ) memset( storage, 0, sizeof storage ); used_slots = 0; alive_n = 0; count = 0; }
long fresh() { return( ++count ); }
long live() { return( alive_n ); }
struct piece { alignas( 16 ) char mem[ 256 ]; piece *next; };
static piece all[ 4096 ];
static piece *lists[ 64 ];
static std::size_t given = 0;
static bool on = false;
static int ( *which )() = nullptr;
static piece *&list() { return( lists[ which ? which() & 63 : 0 ] ); }
void pool_start( bool o, int ( *w )() ) { on = o; which = w; given = 0; for( auto &l : lists ) l = nullptr; }
void *pool_get( std::size_t n )
{
   if( ! on || n > sizeof( piece::mem ) ) return( nullptr );
   piece *&l( list() );
   if( l ) { piece *s = l; l = s->next; return( s->mem ); }
   return( given < 4096 ? all[ given++ ].mem : nullptr );
}
bool pool_put( void *p )
{
   if( (char*) p < (char*) all || (char*) p >= (char*)( all + 4096 ) ) return( false );
   piece *s = (piece*) p;
   piece *&l( list() );
   s->next = l; l = s;
   return( true );
}
}
