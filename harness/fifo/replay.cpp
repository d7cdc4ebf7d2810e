/**
 * replay - drives the real FIFO through behaviours generated from
 * spec/StreamReplay.tla and compares what is observable after every step.
 *
 * script:  N <cap>                                  a new stream
 *          <who> <op> <n> <a..> <s> ; <wx> <rx> <zx> <n> (<v> <s>)* <size> <room> <cap> <live> <closed> <blk> <published>
 * usage:   replay script seed first last
 * output:  FAIL <walk> <line> <kind> <detail>   /  DONE <walks> <steps> <points> <switches>
 */
#include "actions.hpp"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

struct step : public action
{
   int line; char who;
   std::string x[ 3 ];
   std::vector< std::pair< std::int64_t, std::int64_t > > out;
   std::int64_t size, room, cap, live, closed, blk, pub;
};
struct walk { int line; std::int64_t cap; std::vector< step > steps; };

struct shared { int walk, line; std::uint64_t steps, points, switches, fails; };
static shared *sh;

static void fail( int w, const step *s, const std::string &kind, const std::string &detail )
{
   printf( "FAIL %d %d %s %s\n", w, s ? s->line : 0, kind.c_str(), detail.c_str() );
   fflush( stdout );
   sh->fails++;
}

struct actor : public answer
{
   const step *cmd = nullptr; bool quit = false; bool busy = false;
};

template < class T > static void run_walk( int wi, const walk &w, std::uint64_t seed, bool warm = false )
{
   constexpr bool ext = ext_alloc< T >::value;
   track::reset();
   bool failed = false;
   const step *at = nullptr;
   long E_thrown = 0;
   sim::config c;
   c.seed = seed * 7919 + wi;
   c.policy = ( wi % 3 == 2 ) ? sim::PCT : sim::RANDOM;
   c.denom  = ( wi % 3 == 0 ) ? 3 : 13;
   c.horizon = 200 + w.steps.size() * 150; c.depth = 1 + w.steps.size() / 4;
   c.quantum = 1500; c.tso = wi & 1;
   c.max_steps = 100000 + 60000 * (std::uint64_t) w.steps.size();
   auto bad  = [&]( const std::string &k, const std::string &d ) { if( ! failed ) { failed = true; fail( wi, at, k, d ); } };
   auto body = [&]()
   {
      const std::size_t base = sim::live_chunks();
      {
      ends< T > E( w.cap );
      FIFO * const f = E.f;
      actor A[ 3 ];   /** writer, reader, resizer **/
      volatile bool exit_alloc = false;
      auto writer = [&]( const step &s, actor &me ) { E.writer( s, me ); };
      auto reader = [&]( const step &s, actor &me ) { E.reader( s, me ); };
      auto resizer = [&]( const step &s, actor & ) { f->resize( s.a[ 0 ], 16, exit_alloc ); };

      std::vector< int > ids;
      for( int i = 0; i < 3; i++ ) ids.push_back( sim::spawn( [&, i]()
      {
         actor &me = A[ i ];
         for( ;; )
         {
            sim::wait_until( [&]{ return( me.cmd != nullptr || me.quit ); } );
            if( me.cmd == nullptr ) return;
            me.x = "ok"; me.out.clear();
            if( i == 0 ) writer( *me.cmd, me ); else if( i == 1 ) reader( *me.cmd, me ); else resizer( *me.cmd, me );
            me.cmd = nullptr; me.busy = false;
            sim::progress();
         }
      } ) );
      auto give = [&]( int i, const step *s ) { A[ i ].busy = true; A[ i ].cmd = s; sim::progress(); sim::quiesce( 2 ); };
      std::vector< step > extra; extra.reserve( 64 );
      auto fresh = [&]( const char *op, std::vector< std::int64_t > a ) { extra.emplace_back(); extra.back().op = op; extra.back().a = a; extra.back().s = 0; extra.back().line = at ? at->line : 0; return( &extra.back() ); };
      bool range_out = false, one_out = false;
      std::int64_t written = 0;     /** since the statistics were read **/
      for( const auto &s : w.steps )
      {
         at = &s; sh->line = s.line; sh->steps++;
         const bool was[ 3 ] = { A[ 0 ].busy, A[ 1 ].busy, A[ 2 ].busy };
         const int who = s.who == 'w' ? 0 : s.who == 'r' ? 1 : 2;
         std::int64_t blk = -1, cnt = -1;
         float share = -1;
         if( s.op == "stat" )
         {
            /** the statistics can be read in two ways **/
            if( ( s.line / 3 ) % 2 ) share = f->get_frac_write_blocked();
            else { Blocked b; f->get_zero_write_stats( b ); blk = b.bec.blocked; cnt = b.bec.count; }
            sim::progress(); sim::quiesce( 2 );
         }
         else give( who, &s );
         /** seems to wait where it must not: give it plenty of chances **/
         for( int i = 0; i < 3; i++ ) if( A[ i ].busy && s.x[ i ] != "run" ) { sim::progress(); sim::quiesce( 4, 300 ); break; }
         static const char *names[] = { "writer", "reader", "resizer" };
         for( int i = 0; i < 3 && ! failed; i++ )
         {
            const bool ran = was[ i ] || ( i == who && s.op != "stat" );
            if( ! ran ) continue;
            if( A[ i ].busy && s.x[ i ] != "run" ) bad( "wait", std::string( names[ i ] ) + " still waits, must finish with " + s.x[ i ] );
            else if( ! A[ i ].busy && s.x[ i ] == "run" ) bad( "early", std::string( names[ i ] ) + " finished (" + A[ i ].x + "), must wait" );
            else if( i == 1 && was[ 1 ] && s.x[ 1 ] == "closed" && A[ 1 ].x == "nodata" ) ;   /** closed while it was looking **/
            else if( ! A[ i ].busy && A[ i ].x != s.x[ i ] ) bad( "outcome", std::string( names[ i ] ) + " got " + A[ i ].x + ", must be " + s.x[ i ] );
         }
         if( ! failed && ! A[ 1 ].busy && ( was[ 1 ] || who == 1 ) && A[ 1 ].x == "ok" )
         {
            auto &o = A[ 1 ].out;
            bool okv = o.size() == s.out.size(), oks = okv;
            for( std::size_t i = 0; okv && i < o.size(); i++ )
            {
               if( o[ i ].first != el< T >::of( s.out[ i ].first ) ) okv = false;
               if( o[ i ].second != -1 && o[ i ].second != s.out[ i ].second ) oks = false;
            }
            if( ! okv || ! oks )
            {
               std::string d = "got";
               for( auto &p : o ) d += " " + std::to_string( p.first ) + "/" + std::to_string( p.second );
               d += ", must be";
               for( auto &p : s.out ) d += " " + std::to_string( el< T >::of( p.first ) ) + "/" + std::to_string( p.second );
               bad( okv ? "signal" : s.op == "look" ? "held" : "value", d );
            }
         }
         if( ! failed )
         {
            auto cmp = [&]( const char *k, std::int64_t got, std::int64_t want ) { if( got != want ) bad( k, std::string( k ) + " is " + std::to_string( got ) + ", must be " + std::to_string( want ) ); };
            cmp( "size", f->size(), s.size );
            cmp( "room", f->space_avail(), s.room );
            cmp( "capacity", f->capacity(), s.cap );
            cmp( "closed", f->is_invalid() ? 1 : 0, s.closed );
            written += s.pub;
            if( blk >= 0 && s.blk != 2 ) cmp( "blocked", blk, s.blk );
            if( cnt >= 0 ) cmp( "written", cnt, written );
            if( share >= 0 && ( s.blk == 0 || written == 0 ) && share != 0 ) bad( "share", "share of blocked writes is " + std::to_string( share ) + ", must be 0" );
            else if( share >= 0 && s.blk == 1 && written > 0 && ( share < 0.999f / written || share > 1.001f / written ) ) bad( "share", "share of blocked writes is " + std::to_string( share ) + " after " + std::to_string( written ) );
            if( s.op == "stat" ) written = 0;
            if( el< T >::tracked && ! ( ext && A[ 1 ].busy ) ) cmp( "live", track::live() - A[ 0 ].own - A[ 1 ].own, s.live );
         }
         if( s.op == "alloc" ) one_out = true; if( s.op == "allocr" ) range_out = true;
         if( s.op == "send" || s.op == "sendr" || s.op == "dealloc" ) one_out = range_out = false;
         if( failed ) break;
      }
      if( failed ) { sim::finish(); }
      /** both wait for each other (say, for more than fits): nothing more to see **/
      if( ! w.steps.empty() && A[ 0 ].busy && A[ 1 ].busy ) sim::finish();
      /** drain: everything must be released and given back **/
      {
         exit_alloc = true; sim::progress(); sim::quiesce( 2 );
         if( A[ 2 ].busy ) bad( "wait", "resizer does not give up on exit" );
         for( int guard = 0; A[ 0 ].busy && guard < 20 && ! failed; guard++ )
         {
            if( ! A[ 1 ].busy ) give( 1, fresh( "popn", {} ) );
            else bad( "wait", "reader and writer both wait" );
         }
         if( ! failed && A[ 0 ].busy ) bad( "wait", "writer not released by reading" );
         if( ! failed && ( one_out || range_out ) ) give( 0, fresh( one_out ? "send" : "sendr", {} ) );
         if( ! failed ) give( 0, fresh( "close", {} ) );
         if( ! failed && A[ 1 ].busy ) bad( "wait", "reader not released by closing" );
         if( ! failed ) { give( 1, fresh( "unpeek", {} ) ); }
         for( int guard = 0; guard < 30 && ! failed; guard++ )
         {
            give( 1, fresh( "popn", {} ) );
            if( A[ 1 ].busy ) bad( "wait", "reader waits on a closed stream" );
            else if( A[ 1 ].x == "closed" ) break;
         }
         if( ! failed && A[ 1 ].x != "closed" ) bad( "outcome", "closed stream never reports closed" );
         if( failed ) sim::finish();
         for( auto &a : A ) a.quit = true;
         for( int i : ids ) sim::join( i );
         E.hr.reset();
         delete f; E_thrown = E.thrown;
         if( el< T >::tracked && track::live() != 0 ) bad( "live", std::to_string( track::live() ) + " elements never destroyed" );
      }
      }
      if( ! failed && ! warm && ( sim::live_chunks() < base || sim::live_chunks() > base + E_thrown ) ) bad( "leak", std::to_string( (long) sim::live_chunks() - (long) base ) + " heap blocks not given back" );
   };
   const auto r = sim::run( c, body );
   if( ! r.ok && ! failed ) fail( wi, at, r.what.compare( 0, 4, "hang" ) == 0 ? "hang" : r.what.compare( 0, 4, "life" ) == 0 ? "lifetime" : r.what.compare( 0, 4, "dead" ) == 0 ? "hang" : "memory", r.what );
   sh->points += r.steps; sh->switches += r.switches;
}

int main( int argc, char **argv )
{
   if( argc < 5 ) return( 2 );
   std::vector< walk > walks;
   std::ifstream is( argv[ 1 ] ); std::string l; int ln = 0;
   const int first = atoi( argv[ 3 ] ), last = atoi( argv[ 4 ] );
   while( std::getline( is, l ) )
   {
      ln++;
      std::istringstream s( l ); std::string t; s >> t;
      if( t == "N" ) { walks.emplace_back(); walks.back().line = ln; s >> walks.back().cap; }
      else
      {
         step q; q.line = ln; q.who = t[ 0 ]; std::size_t n; std::int64_t v, g;
         s >> q.op >> n; while( n-- ) { s >> v; q.a.push_back( v ); } s >> q.s >> t;
         s >> q.x[ 0 ] >> q.x[ 1 ] >> q.x[ 2 ] >> n;
         while( n-- ) { s >> v >> g; q.out.emplace_back( v, g ); }
         s >> q.size >> q.room >> q.cap >> q.live >> q.closed >> q.blk >> q.pub;
         if( ! s ) { fprintf( stderr, "bad script line %d\n", ln ); return( 2 ); }
         walks.back().steps.push_back( q );
      }
   }
   sh = (shared*) mmap( nullptr, sizeof( shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
   int done = first;
   const int stop = std::min< int >( last, walks.size() );
   while( done < stop && sh->fails < 5 )
   {
      const int to = std::min( stop, done + 40 );
      sh->walk = done;
      fflush( stdout );
      const pid_t p = fork();
      if( p == 0 )
      {
         sim::install_crash_handlers();
         sim::on_fatal = []( const std::string &w )
         { printf( "FAIL %d %d crash %s\n", sh->walk, sh->line, w.c_str() ); sh->fails++; fflush( stdout ); };
         track::report = []( const char *w ) { sim::fault( w ); };
         for( int i = done; i < to; i++ )
         {
            sh->walk = i; alarm( 60 );
            /** the first time round, the process sets up things it keeps **/
            if( i == done ) run_walk< elem >( i, walks[ i ], atoll( argv[ 2 ] ) + 1, true );
            run_walk< elem >( i, walks[ i ], atoll( argv[ 2 ] ) );
            if( sh->fails >= 5 ) break;
         }
         fflush( stdout );
         _exit( 0 );
      }
      int st = 0; waitpid( p, &st, 0 );
      if( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) done = to;
      else
      {
         if( ! ( WIFEXITED( st ) && WEXITSTATUS( st ) == 70 ) )
         { printf( "FAIL %d %d crash process ended abnormally (%d)\n", sh->walk, sh->line, st ); sh->fails++; }
         done = sh->walk + 1;
      }
   }
   printf( "DONE %d %llu %llu %llu\n", done - first, (unsigned long long) sh->steps, (unsigned long long) sh->points, (unsigned long long) sh->switches );
   return( 0 );
}
