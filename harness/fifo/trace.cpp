/**
 * trace - lets a writing, a reading and (sometimes) a resizing thread run
 * freely on one real FIFO and records every call and return, for validation
 * against spec/StreamTrace.tla.
 *
 * usage:   trace <seed> <first program> <last program> <schedules> <1: resize, 2: big, 3: both>
 * output:  FAIL <program> <schedule> <kind> <detail>
 *          P <program> <json>                a recorded execution, new results
 *          DONE <runs> <points> <switches>
 */
#include "actions.hpp"
#include <cstdio>
#include <functional>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

struct rng
{
   std::uint64_t s;
   std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return( s >> 8 ); }
   int below( int n ) { return( (int) ( next() % n ) ); }
};

/** what the three threads do; the reader decides as it goes along **/
struct program
{
   std::int64_t cap;
   std::vector< action > w;
   std::vector< std::pair< int, std::int64_t > > z;     /** after so many turns, to this capacity **/
   int rmix; int rmax; std::uint64_t rseed;
   int ask = 0;      /** questions in between, and so many from a bystander **/
};

template < class T > static program make( std::uint64_t seed, bool resize, bool big )
{
   constexpr bool ext = ext_alloc< T >::value;
   rng r{ seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL };
   for( int i = 0; i < 8; i++ ) r.next();
   program p;
   static const int bigcap[] = { 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 130 };
   p.cap = big ? bigcap[ r.below( 15 ) ] : 1 + r.below( 4 );
   /** a range read and a range reservation can never wait for each other **/
   const int wmax = 1 + r.below( (int) p.cap ), rmax = p.cap + 1 - wmax;
   p.rmax = rmax < 1 ? 1 : rmax; p.rmix = r.below( 6 ); p.rseed = r.next();
   const int n = big ? 2 * p.cap + r.below( p.cap ) : 4 + r.below( 9 );
   /** now and then as much as there may be at once **/
   auto many = [&]( int most, int usual ) { return( big ? ( r.below( 3 ) ? 1 + r.below( std::min( most, 6 ) ) : r.below( 2 ) ? most : 1 + r.below( most ) ) : usual ); };
   std::int64_t v = 0, sg = 0;
   const int wmix = r.below( 4 );
   auto sig = [&]() -> std::int64_t { return( r.below( 2 ) ? 0 : ( r.below( 6 ) ? 0x1000 + ++sg : 0xfff ) ); };
   while( v < n )
   {
      action a;
      int k = r.below( 10 );
      if( wmix == 1 ) k = 0; if( wmix == 2 ) k = 2 + r.below( 2 );
      switch( k )
      {
         case 0: case 1: a.op = k ? "push" : "pushm"; a.a = { ++v }; a.s = sig(); break;
         case 2: case 3:
         {
            a.op = k == 2 ? "insl" : "insv";
            const int m = many( p.cap + 3, r.below( 5 ) );
            for( int i = 0; i < m; i++ ) a.a.push_back( ++v );
            a.s = sig();
         }
         break;
         case 4: case 5: a.op = "allocs"; a.a = { ++v }; a.s = sig(); break;
         case 6: case 7:
         {
            a.op = "alloc"; a.a = { ++v }; p.w.push_back( a );
            a = action{}; a.op = r.below( 4 ) ? "send" : "dealloc"; if( a.op == "send" ) a.s = sig(); else v--;
         }
         break;
         default:
         {
            if( ! std::is_trivially_copyable< T >::value || ext ) continue;
            a.op = "allocr";
            const int m = many( wmax, 1 + r.below( wmax ) );
            for( int i = 0; i < m; i++ ) a.a.push_back( ++v );
            p.w.push_back( a );
            a = action{}; a.op = r.below( 4 ) ? "sendr" : "dealloc"; if( a.op == "sendr" ) a.s = sig(); else v -= m;
         }
      }
      p.w.push_back( a );
   }
   { action a; a.op = "close"; p.w.push_back( a ); }
   if( resize )
   {
      std::int64_t c = p.cap;
      for( int i = 0, k = 1 + r.below( 3 ); i < k; i++ ) { c += 1 + r.below( (int) c ); p.z.emplace_back( r.below( 40 ), c ); }
   }
   p.ask = r.below( 3 ) ? 0 : 1 + r.below( 4 );
   return( p );
}

struct shared { int prog, sched; std::uint64_t runs, points, switches, fails; };
static shared *sh;
static bool all_traces = false;

static void fail( const std::string &kind, const std::string &d )
{
   printf( "FAIL %d %d %s %s\n", sh->prog, sh->sched, kind.c_str(), d.c_str() );
   fflush( stdout );
   sh->fails++;
}

template < class T > struct recorder
{
   std::ostringstream ev; bool first = true;
   std::ostringstream proj[ 3 ];
   void emit( const std::string &s ) { if( ! first ) ev << ","; first = false; ev << s; }
   static std::string list( const std::vector< std::int64_t > &a )
   { std::string s = "["; for( std::size_t i = 0; i < a.size(); i++ ) s += ( i ? "," : "" ) + std::to_string( a[ i ] ); return( s + "]" ); }
   void call( char who, const action &a, bool values )
   {
      sim::no_preempt( true );
      std::vector< std::int64_t > v( a.a );
      if( values ) for( auto &x : v ) x = el< T >::of( x );
      emit( std::string( "{\"k\":\"c\",\"t\":\"" ) + who + "\",\"op\":\"" + a.op + "\",\"a\":" + list( v ) + ",\"s\":" + std::to_string( a.s ) + "}" );
      sim::no_preempt( false );
   }
   void ret( char who, const answer &r, bool look )
   {
      sim::no_preempt( true );
      std::string o = "[";
      for( std::size_t i = 0; i < r.out.size(); i++ )
         o += ( i ? ",[" : "[" ) + std::to_string( r.out[ i ].first ) + "," + std::to_string( look ? -1 : r.out[ i ].second ) + "]";
      o += "]";
      emit( std::string( "{\"k\":\"r\",\"t\":\"" ) + who + "\",\"x\":\"" + r.x + "\",\"out\":" + o + "}" );
      proj[ who == 'w' ? 0 : who == 'r' ? 1 : 2 ] << r.x << o;
      sim::no_preempt( false );
   }
   void obs( FIFO *f )
   {
      emit( "{\"k\":\"o\",\"t\":\"o\",\"size\":" + std::to_string( f->size() ) + ",\"room\":" + std::to_string( f->space_avail() )
            + ",\"cap\":" + std::to_string( f->capacity() ) + ",\"closed\":" + ( f->is_invalid() ? "true" : "false" ) + "}" );
   }
};

template < class T > static void run_one( const program &p, int pi, int si, std::uint64_t seed, bool warm, std::set< std::string > &seen )
{
   constexpr bool ext = ext_alloc< T >::value;
   track::reset();
   sh->prog = pi; sh->sched = si;
   sim::config c;
   c.seed = seed * 1000003 + pi * 977 + si;
   c.policy = ( si % 3 == 2 ) ? sim::PCT : sim::RANDOM;
   static const int den[] = { 2, 5, 12, 40 };
   c.denom = den[ ( si / 3 ) % 4 ];
   c.horizon = 1500 * ( 1 + p.cap / 4 ); c.depth = 3 + si % 9; c.quantum = 400;
   c.max_steps = 400000 * ( 1 + p.cap / 8 );
   c.tso = ( pi + si ) & 1;
   recorder< T > rec;
   bool failed = false;
   long extra = 0;
   std::size_t base = 0, after = 0;
   const auto r = sim::run( c, [&]()
   {
      base = sim::live_chunks();
      {
      ends< T > E( p.cap );
      FIFO * const f = E.f;
      volatile bool exit_alloc = false;
      bool rdone = false;
      std::vector< int > ids;
      ids.push_back( sim::spawn( [&]()
      {
         rng q{ p.rseed ^ 0x1234567 };
         for( const auto &a : p.w )
         {
            answer me;
            if( p.ask && q.below( 3 ) == 0 )
            {
               static const char * const what[] = { "room", "size", "room", "cap" };
               action b; b.op = what[ q.below( 4 ) ];
               rec.call( 'w', b, false );
               E.writer( b, me );
               rec.ret( 'w', me, false );
               me = answer();
            }
            rec.call( 'w', a, true );
            E.writer( a, me );
            rec.ret( 'w', me, false );
         }
      } ) );
      ids.push_back( sim::spawn( [&]()
      {
         rng q{ p.rseed };
         auto act = [&]( const char *op, std::vector< std::int64_t > n )
         {
            action a; a.op = op; a.a = n;
            answer me;
            rec.call( 'r', a, false );
            E.reader( a, me );
            rec.ret( 'r', me, a.op == "look" );
            return( me.x );
         };
         for( int guard = 0; guard < 60 * p.cap + 200; guard++ )
         {
            int k = q.below( 12 );
            if( p.rmix == 1 ) k = 0; if( p.rmix == 2 ) k = 6; if( p.rmix == 3 ) k = 8; if( p.rmix == 4 ) k = 3;
            const std::int64_t n = p.cap > 4 && q.below( 3 ) ? 1 + q.below( std::min( p.rmax, 6 ) ) : 1 + q.below( p.rmax );
            std::string x = "ok";
            if( p.ask && q.below( 3 ) == 0 )
            {
               static const char * const what[] = { "size", "size", "closed", "room" };
               act( what[ q.below( 4 ) ], {} );
            }
            if( k <= 1 )      x = act( "pop", {} );
            else if( k == 2 ) x = act( "popn", {} );
            else if( k <= 4 ) x = act( "pops", {} );
            else if( k == 5 ) x = act( "popr", { p.cap > 4 ? n : 1 } );
            else if( k <= 7 )
            {
               x = act( "peek", {} );
               if( x == "ok" )
               {
                  act( "look", {} );
                  if( q.below( 3 ) ) { act( "recycle", { 1 } ); }
                  act( "unpeek", {} );
               }
            }
            else if( k <= 10 )
            {
               x = act( "peekr", { n } );
               if( x == "ok" )
               {
                  act( "look", {} );
                  const std::int64_t m = q.below( (int) n + 1 );
                  if( m ) act( "recycle", { m } );
                  act( "unpeek", {} );
               }
               else if( x == "nodata" ) { act( "popn", {} ); x = "ok"; }
            }
            else x = act( "recycle", { 1 } ), x = "ok";
            if( x == "closed" ) break;
         }
         rdone = true;
      } ) );
      if( ! p.z.empty() || p.ask > 1 ) ids.push_back( sim::spawn( [&]()
      {
         rng q{ p.rseed ^ 0x7654321 };
         for( int i = 1; i < p.ask; i++ )
         {
            for( int n = q.below( 30 ); n > 0; n-- ) sim::yield();
            static const char * const what[] = { "size", "size", "size", "cap", "closed" };
            action a; a.op = what[ q.below( 5 ) ];
            answer me;
            rec.call( 'z', a, false );
            E.query( a, me );
            rec.ret( 'z', me, false );
         }
         for( const auto &z : p.z )
         {
            for( int i = 0; i < z.first; i++ ) sim::yield();
            action a; a.op = "resize"; a.a = { z.second };
            answer me;
            rec.call( 'z', a, false );
            f->resize( z.second, 16, exit_alloc );
            rec.ret( 'z', me, false );
         }
      } ) );
      for( int i : ids ) sim::join( i );
      if( ! rdone ) { failed = true; fail( "hang", "reader did not finish" ); }
      rec.obs( f );
      E.hr.reset();
      delete f;
      extra = E.thrown;
      if( el< T >::tracked && track::live() != 0 ) { failed = true; fail( "live", std::to_string( track::live() ) + " elements never destroyed" ); }
      }
      after = sim::live_chunks();
   } );
   sh->runs++; sh->points += r.steps; sh->switches += r.switches;
   if( ! r.ok && ! failed )
   {
      failed = true;
      fail( r.what.compare( 0, 4, "hang" ) == 0 || r.what.compare( 0, 4, "dead" ) == 0 ? "hang" : r.what.compare( 0, 4, "life" ) == 0 ? "lifetime" : "memory",
            r.what + " after [" + rec.ev.str().substr( 0, 1500 ) + "]" );
   }
   (void) after; (void) base; (void) extra; (void) warm;
   if( failed ) return;
   /** the same program has the same results, the schedule apart **/
   std::string pr = rec.proj[ 0 ].str() + "|" + rec.proj[ 1 ].str() + "|" + rec.proj[ 2 ].str();
   if( all_traces || seen.insert( pr ).second || si % 16 == 1 )
      printf( "P %d {\"cap\":%d,\"p\":%d,\"s\":%d,\"ev\":[%s]}\n", pi, (int) p.cap, pi, si, rec.ev.str().c_str() );
}

int main( int argc, char **argv )
{
   if( argc < 6 ) return( 2 );
   const std::uint64_t seed = atoll( argv[ 1 ] );
   const int first = atoi( argv[ 2 ] ), last = atoi( argv[ 3 ] ), scheds = atoi( argv[ 4 ] );
   const bool rs = atoi( argv[ 5 ] ) & 1, big = atoi( argv[ 5 ] ) & 2;
   all_traces = argc > 6;
   sh = (shared*) mmap( nullptr, sizeof( shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
   int done = first;
   while( done < last && sh->fails < 5 )
   {
      const int to = std::min( last, done + 8 );
      sh->prog = done;
      fflush( stdout );
      const pid_t pid = fork();
      if( pid == 0 )
      {
         sim::install_crash_handlers();
         sim::on_fatal = []( const std::string &w ) { fail( "crash", w ); };
         track::report = []( const char *w ) { sim::fault( w ); };
         for( int i = done; i < to; i++ )
         {
            const program p = make< elem >( seed * 131 + i, rs, big );
            std::set< std::string > seen;
            alarm( 60 );
            for( int s = 0; s < scheds && sh->fails < 5; s++ ) run_one< elem >( p, i, s, seed, s == 0, seen );
            if( sh->fails >= 5 ) break;
         }
         fflush( stdout );
         _exit( 0 );
      }
      int st = 0; waitpid( pid, &st, 0 );
      if( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) done = to;
      else
      {
         if( ! ( WIFEXITED( st ) && WEXITSTATUS( st ) == 70 ) ) { fail( "crash", "process ended abnormally (" + std::to_string( st ) + ")" ); }
         done = sh->prog + 1;
      }
   }
   printf( "DONE %llu %llu %llu\n", (unsigned long long) sh->runs, (unsigned long long) sh->points, (unsigned long long) sh->switches );
   return( 0 );
}
