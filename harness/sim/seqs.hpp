/**
 * seqs - runs behaviours written by lib/seqs.py, each one after the other in
 * a child process, so that a crash is one failed behaviour.
 */
#ifndef SEQS_HPP
#define SEQS_HPP 1
#include "detsim.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace seqs
{
struct seq { int id; std::vector< std::string > lines; };
struct shared { int cur, at; std::uint64_t step, runs, fails; };
inline shared *sh;
inline std::string argv1;
inline void step() { sh->step++; sh->at++; sim::alive(); }
inline void fail( const std::string &kind, const std::string &d )
{
   sim::no_preempt( true );
   printf( "FAIL %d %d %s %s\n", sh->cur, sh->at, kind.c_str(), d.c_str() );
   fflush( stdout );
   sh->fails++;
   sim::no_preempt( false );
}
/** something observed, for a specification to judge **/
inline void report( const std::string &json )
{
   printf( "R %d %s\n", sh->cur, json.c_str() );
}
template < class F > int main( int argc, char **argv, F run )
{
   if( argc < 2 ) return( 2 );
   argv1 = argv[ 1 ];
   std::ifstream is( argv[ 1 ] );
   std::vector< seq > qs;
   for( std::string l; std::getline( is, l ); )
      if( l.compare( 0, 2, "N " ) == 0 ) qs.push_back( { atoi( l.c_str() + 2 ), {} } );
      else if( ! l.empty() && ! qs.empty() ) qs.back().lines.push_back( l );
   sh = (shared*) mmap( nullptr, sizeof( shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
   std::size_t done = 0;
   while( done < qs.size() && sh->fails < 20 )
   {
      const std::size_t to = std::min( qs.size(), done + 250 );
      fflush( stdout );
      const pid_t pid = fork();
      if( pid == 0 )
      {
         sim::install_crash_handlers();
         sim::on_fatal = []( const std::string &x ) { fail( "crash", x ); };
         for( std::size_t i = done; i < to && sh->fails < 20; i++ )
         {
            alarm( 60 );
            sh->cur = (int) i; sh->at = 0;
            run( qs[ i ] );
            sh->runs++;
         }
         fflush( stdout );
         _exit( 0 );
      }
      int st = 0;
      waitpid( pid, &st, 0 );
      if( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) { done = to; continue; }
      if( ! ( WIFEXITED( st ) && WEXITSTATUS( st ) == 70 ) ) fail( "crash", "process ended abnormally (" + std::to_string( st ) + ")" );
      done = sh->cur + 1;
   }
   printf( "DONE %llu %llu\n", (unsigned long long) sh->runs, (unsigned long long) sh->step );
   return( 0 );
}
}
#endif
