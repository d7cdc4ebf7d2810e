/**
 * element types the streams are exercised with: one per storage class and
 * per way the library treats them.  id -> element and element -> id.
 */
#ifndef FIFO_TYPES_HPP
#define FIFO_TYPES_HPP 1
#include <cstdint>
#include <cstring>
#include <string>
#include <atomic>
#include <new>
#include "track.hpp"

/** small plain structure: a class kept inside the ring **/
struct Pod
{
   std::int64_t a = 0; std::int64_t b = -1;
};
/** small class with a life time: kept inside the ring **/
struct Tracked
{
   std::int64_t v; const void *self;
   Tracked() : v( -1 ), self( this ) { track::born( this ); }
   explicit Tracked( std::int64_t x ) : v( x ), self( this ) { track::born( this ); }
   Tracked( const Tracked &o ) : v( o.get() ), self( this ) { track::born( this ); }
   Tracked &operator=( const Tracked &o ) { track::used( this ); v = o.get(); return( *this ); }
   ~Tracked() { track::died( this ); self = nullptr; v = -77; }
   std::int64_t get() const
   {
      track::used( this );
      if( self != this && track::report ) track::report( "lifetime: element was moved bit by bit" );
      return( v );
   }
};
/** large structure: kept on the heap, the ring holds a pointer **/
struct Big
{
   std::int64_t a = 0; std::int64_t pad[ 20 ] = {};
};
/** memory for heap held elements that is given out again at once, as real
 *  allocators do (freed memory of the simulator is never used again): whoever still
 *  believes that an address is that of an object gone takes the next one for it **/
namespace pool
{
inline std::atomic< long > calls( 0 );   /** like an allocator: everything written arrives before **/
inline void *get( std::size_t n )
{
   calls++;
   void *p = track::pool_get( n );
   return( p != nullptr ? p : ::operator new( n ) );
}
inline void put( void *p )
{
   calls++;
   if( ! track::pool_put( p ) ) ::operator delete( p );
}
}
struct BigTracked
{
   static void *operator new( std::size_t n ) { return( pool::get( n ) ); }
   static void *operator new( std::size_t, void *p ) { return( p ); }
   static void operator delete( void *p ) { pool::put( p ); }
   /** uid: tells objects apart, it stays with the object **/
   std::int64_t v; const void *self; std::int64_t pad[ 17 ]; std::int64_t uid;
   BigTracked() : v( -1 ), self( this ), uid( track::fresh() ) { fill(); track::born( this ); }
   explicit BigTracked( std::int64_t x ) : v( x ), self( this ), uid( track::fresh() ) { fill(); track::born( this ); }
   BigTracked( const BigTracked &o ) : v( o.get() ), self( this ), uid( track::fresh() ) { fill(); track::born( this ); }
   BigTracked &operator=( const BigTracked &o ) { track::used( this ); v = o.get(); fill(); return( *this ); }
   ~BigTracked() { track::died( this ); self = nullptr; v = -77; }
   void fill() { for( int i = 0; i < 17; i++ ) pad[ i ] = v * 31 + i; }
   std::int64_t get() const
   {
      track::used( this );
      if( self != this && track::report ) track::report( "lifetime: element was moved bit by bit" );
      for( int i = 0; i < 17; i++ ) if( pad[ i ] != v * 31 + i ) return( -999 );
      return( v );
   }
};

template < class T > struct el
{
   static T mk( std::int64_t v ) { return( (T) v ); }
   static std::int64_t id( const T &t ) { return( (std::int64_t) t ); }
   /** what id() must return for element v **/
   static std::int64_t of( std::int64_t v ) { return( v ); }
   static const bool tracked = false;
};
template <> struct el< bool >
{
   static bool mk( std::int64_t v ) { return( of( v ) != 0 ); }
   static std::int64_t id( const bool &t ) { return( t ? 1 : 0 ); }
   static std::int64_t of( std::int64_t v ) { return( ( (std::uint64_t) v * 0x9E3779B97F4A7C15ULL >> 63 ) & 1 ); }
   static const bool tracked = false;
};
template <> struct el< char >
{
   static char mk( std::int64_t v ) { return( (char) of( v ) ); }
   static std::int64_t id( const char &t ) { return( (unsigned char) t ); }
   static std::int64_t of( std::int64_t v ) { return( 1 + v % 251 ); }
   static const bool tracked = false;
};
template <> struct el< double >
{
   static double mk( std::int64_t v ) { return( v * 0.5 ); }
   static std::int64_t id( const double &t ) { return( (std::int64_t)( t * 2 ) ); }
   static std::int64_t of( std::int64_t v ) { return( v ); }
   static const bool tracked = false;
};
template <> struct el< Pod >
{
   static Pod mk( std::int64_t v ) { Pod p; p.a = v; p.b = ~v; return( p ); }
   static std::int64_t id( const Pod &t ) { return( t.b == ~t.a ? t.a : -999 ); }
   static std::int64_t of( std::int64_t v ) { return( v ); }
   static const bool tracked = false;
};
template <> struct el< Tracked >
{
   static Tracked mk( std::int64_t v ) { return( Tracked( v ) ); }
   static std::int64_t id( const Tracked &t ) { return( t.get() ); }
   static std::int64_t of( std::int64_t v ) { return( v ); }
   static const bool tracked = true;
};
template <> struct el< std::string >
{
   static std::string mk( std::int64_t v )
   { return( std::to_string( v ) + std::string( ( v % 3 ) * 12, 'x' ) ); }
   static std::int64_t id( const std::string &t )
   {
      const std::int64_t v = atoll( t.c_str() );
      return( t == mk( v ) ? v : -999 );
   }
   static std::int64_t of( std::int64_t v ) { return( v ); }
   static const bool tracked = false;
};
template <> struct el< Big >
{
   static Big mk( std::int64_t v ) { Big p; p.a = v; for( int i = 0; i < 20; i++ ) p.pad[ i ] = v + i; return( p ); }
   static std::int64_t id( const Big &t )
   { for( int i = 0; i < 20; i++ ) if( t.pad[ i ] != t.a + i ) return( -999 ); return( t.a ); }
   static std::int64_t of( std::int64_t v ) { return( v ); }
   static const bool tracked = false;
};
template <> struct el< BigTracked >
{
   static BigTracked mk( std::int64_t v ) { return( BigTracked( v ) ); }
   static std::int64_t id( const BigTracked &t ) { return( t.get() ); }
   static std::int64_t of( std::int64_t v ) { return( v ); }
   static const bool tracked = true;
};

#if   TYPE == 0
using elem = int;
#elif TYPE == 1
using elem = bool;
#elif TYPE == 2
using elem = char;
#elif TYPE == 3
using elem = double;
#elif TYPE == 4
using elem = Pod;
#elif TYPE == 5
using elem = Tracked;
#elif TYPE == 6
using elem = std::string;
#elif TYPE == 7
using elem = Big;
#elif TYPE == 8
using elem = BigTracked;
#endif
#endif
