/**
 * ranges - calls raft::range with the ends and steps of a behaviour, in many
 * types and at many places of each type, and reports what came back mapped
 * to the numbers of the behaviour, for spec/RangesTrace.tla.
 *
 * usage:  ranges <file>
 * file:   N <id>
 *         R <first> <last> <step>
 * output: R <id> <[{"t": type, "out": [...]}, ...] equal ones once>,
 *         FAIL ..., DONE <behaviours> <steps>
 */
#include <raftutility>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limits>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using wide = __int128;
struct shared { int cur, at; long runs, steps, fails; };
static shared *sh;
static void fail( const char *kind, const std::string &d )
{
   printf( "FAIL %d %d %s %s\n", sh->cur, sh->at, kind, d.c_str() );
   fflush( stdout );
   sh->fails++;
}

/** memory with guards: what is written outside of it shows **/
static const std::size_t G = 256;
static bool watching = false, written = false, huge = false;
static char *block( std::size_t n )
{
   if( watching && n > ( 64u << 20 ) ) { huge = true; throw std::bad_alloc(); }
   char *p = (char*) malloc( n + 2 * G );
   if( p == nullptr ) throw std::bad_alloc();
   memset( p, 0x5a, G );
   memcpy( p, &n, sizeof( n ) );
   memset( p + G + n, 0x5a, G );
   return( p + G );
}
static void unblock( void *v )
{
   if( v == nullptr ) return;
   char *p = (char*) v - G;
   std::size_t n;
   memcpy( &n, p, sizeof( n ) );
   for( std::size_t i = sizeof( n ); i < G; i++ ) if( p[ i ] != 0x5a ) written = true;
   for( std::size_t i = 0; i < G; i++ ) if( p[ G + n + i ] != 0x5a ) written = true;
   free( p );
}
void *operator new( std::size_t n ) { return( block( n ) ); }
void *operator new[]( std::size_t n ) { return( block( n ) ); }
void operator delete( void *p ) noexcept { unblock( p ); }
void operator delete[]( void *p ) noexcept { unblock( p ); }
void operator delete( void *p, std::size_t ) noexcept { unblock( p ); }
void operator delete[]( void *p, std::size_t ) noexcept { unblock( p ); }

static std::map< std::string, std::string > seen;   // what came back -> from where

template < class T > static bool fits( wide x )
{
   if constexpr( std::is_floating_point< T >::value ) return( x > -( (wide) 1 << 20 ) && x < ( (wide) 1 << 20 ) );
   else return( x >= (wide) std::numeric_limits< T >::lowest() && x <= (wide) std::numeric_limits< T >::max() );
}
/** value x of the behaviour is base + x * scale (over part, for fractions) **/
template < class A, class B > static void at( const char *name, long a, long b, long d, wide base, wide scale, int part, bool omit )
{
   using T = typename std::common_type< A, B >::type;
   const wide va = base + a * scale, vb = base + b * scale, vd = d * scale;
   if( ! fits< A >( va ) || ! fits< B >( vb ) || ! fits< T >( va ) || ! fits< T >( vb ) || ! fits< T >( vd ) ) return;
   std::string o = "[";
   sh->steps++;
   watching = true; written = huge = false;
   try
   {
      const A fa = (A) va / (A) part; const B fb = (B) vb / (B) part; const T fd = (T) vd / (T) part;
      auto v( omit ? raft::range( fa, fb ) : raft::range( fa, fb, fd ) );
      static_assert( std::is_same< decltype( v ), std::vector< T > >::value );
      watching = false;
      for( const T e : v )
      {
         if( o.size() > 1 ) o += ",";
         if constexpr( std::is_floating_point< T >::value )
         {
            const T x = ( e * part - (T) base ) / (T) scale;
            o += x == (long) x ? std::to_string( (long) x ) : std::string( "-999999" );
         }
         else
         {
            const wide x = (wide) e - base;
            o += x % scale == 0 && x / scale < 1000000 && x / scale > -1000000 ? std::to_string( (long) ( x / scale ) ) : std::string( "-999999" );
         }
         if( o.size() > 200000 ) break;
      }
   }
   catch( const std::exception &e ) { watching = false; fail( "threw", std::string( name ) + ": " + e.what() ); return; }
   if( written ) fail( "wrote", std::string( name ) + ": outside of its memory" );
   o += "]";
   const std::string where = std::string( name ) + " " + std::to_string( (double) base ) + " + " + std::to_string( (double) scale ) + "x / " + std::to_string( part );
   seen.emplace( o, where );
}
template < class A, class B > static void in( const char *name, long a, long b, long d )
{
   using T = typename std::common_type< A, B >::type;
   const long lo = std::min( a, b ), hi = std::max( a, b );
   for( wide base : { (wide) 0, (wide) 1, -(wide) lo, (wide) hi + 1 } )
   {
      at< A, B >( name, a, b, d, base, 1, 1, false );
      if( d == 1 ) at< A, B >( name, a, b, d, base, 1, 1, true );
   }
   if constexpr( std::is_floating_point< T >::value )
   {
      at< A, B >( name, a, b, d, -6, 2, 1, false );
      if constexpr( std::is_same< A, B >::value )
         for( int part : { 2, 8 } ) at< A, B >( name, a, b, d, 3, 1, part, false );
   }
   else
   {
      const wide min = std::max( (wide) std::numeric_limits< A >::lowest(), (wide) std::numeric_limits< B >::lowest() ),
                 max = std::min( (wide) std::numeric_limits< A >::max(), (wide) std::numeric_limits< B >::max() );
      for( wide scale = 1; scale < max && scale > 0; scale *= scale < 16 ? 3 : 16 )
         for( wide base : { min - lo * scale, max - hi * scale, ( min + max ) / 2, max / 2 - hi * scale } )
            at< A, B >( name, a, b, d, base, scale, 1, false );
      /** as far apart as the type allows **/
      if( hi != lo && hi - lo <= max - min )
      {
         const wide scale = ( max - min ) / ( hi - lo );
         at< A, B >( name, a, b, d, min - lo * scale, scale, 1, false );
         at< A, B >( name, a, b, d, max - hi * scale, scale, 1, false );
      }
   }
}
static void run_one( const std::string &line )
{
   long a, b, d;
   if( sscanf( line.c_str(), "R %ld %ld %ld", &a, &b, &d ) != 3 ) { fail( "harness", "bad line " + line ); return; }
   seen.clear();
#define IN( A, B ) in< A, B >( #A "," #B, a, b, d ); sh->at++
   IN( int, int ); IN( unsigned, unsigned ); IN( long, long ); IN( unsigned long, unsigned long );
   IN( short, short ); IN( unsigned short, unsigned short ); IN( signed char, signed char ); IN( unsigned char, unsigned char ); IN( char, char );
   IN( int, long ); IN( long, int ); IN( short, int ); IN( unsigned char, int ); IN( unsigned, unsigned long ); IN( unsigned, long );
   IN( int, unsigned ); IN( unsigned long, int );
   IN( double, double ); IN( float, float ); IN( int, double ); IN( double, short ); IN( float, double );
   std::string s = "[";
   for( auto &p : seen ) s += ( s.size() > 1 ? "," : "" ) + ( "{\"t\":\"" + p.second + "\",\"out\":" + p.first + "}" );
   printf( "R %d %s]\n", sh->cur, s.c_str() );
}
int main( int argc, char **argv )
{
   if( argc < 2 ) return( 2 );
   std::ifstream is( argv[ 1 ] );
   std::vector< std::string > qs;
   for( std::string l; std::getline( is, l ); ) if( l.compare( 0, 2, "R " ) == 0 ) qs.push_back( l );
   sh = (shared*) mmap( nullptr, sizeof( shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
   std::size_t done = 0;
   while( done < qs.size() && sh->fails < 20 )
   {
      const std::size_t to = std::min( qs.size(), done + 250 );
      fflush( stdout );
      const pid_t pid = fork();
      if( pid == 0 )
      {
         for( std::size_t i = done; i < to && sh->fails < 20; i++ )
         {
            alarm( 20 );
            sh->cur = (int) i; sh->at = 0;
            run_one( qs[ i ] );
            sh->runs++;
         }
         fflush( stdout );
         _exit( 0 );
      }
      int st = 0;
      waitpid( pid, &st, 0 );
      if( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) { done = to; continue; }
      if( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGALRM ) fail( "endless", "the call does not return" );
      else fail( "crash", "process ended abnormally (" + std::to_string( st ) + ")" );
      done = sh->cur + 1;
   }
   printf( "DONE %ld %ld\n", sh->runs, sh->steps );
   return( 0 );
}
