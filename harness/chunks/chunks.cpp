/**
 * chunks - files read in chunks and searched by the real kernels, reported
 * for spec/ChunksTrace.tla.  Files are made in a directory of their own.
 *
 * usage:  chunks <file> <seed> <scratch directory>
 * file:   N <id>
 *         F <chunk size> <overlap> <ports> <capacity> <how>
 *           how: pop pops peek iter fwd, or search
 *         D <content>             '0' is a NUL, '1' a newline
 *         L <length>              instead: so many NULs, not reported
 *         T <term>
 * output: R <id> <json>, FAIL ..., DONE <behaviours> <steps>
 */
#include <raft>
#include <raftio>
#include <raftalgorithm>
#include <fcntl.h>
#include "../sim/detsim.hpp"
#include "../sim/seqs.hpp"
#include <memory>

struct quiet { quiet() { sim::no_preempt( true ); } ~quiet() { sim::no_preempt( false ); } };
static std::uint64_t seed = 1;
static std::string scratch = ".";

static std::string bytes( std::string s ) { for( auto &c : s ) c = c == '0' ? '\0' : c == '1' ? '\n' : c; return( s ); }
static std::string chars( std::string s ) { for( auto &c : s ) c = c == '\0' ? '0' : c == '\n' ? '1' : c >= 'a' && c <= 'z' ? c : '?'; return( s ); }
static std::string num( std::size_t x ) { return( std::to_string( x ) ); }

static std::vector< std::vector< std::string > > got;
static bool brief;

template < class C > static void note( const int p, C &c, const raft::signal s, const bool iter )
{
   quiet q;
   std::string at, text;
   if( iter )
   {
      for( auto it( c.begin() ); it != c.end(); ++it )
      {
         if( ! at.empty() ) at += ",";
         at += num( it.location() );
         text += *it;
      }
   }
   else text = std::string( c.buffer, std::min( c.length, C::getChunkSize() ) );
   if( c.length >= C::getChunkSize() || c.buffer[ c.length ] != '\0' ) seqs::fail( "terminator", "chunk " + num( c.index ) + " has no terminating zero" );
   got[ p ].push_back( "{\"start\":" + num( c.start_position ) + ",\"len\":" + num( c.length ) + ",\"index\":" + num( c.index ) +
      ",\"eof\":" + ( s == raft::eof ? "true" : "false" ) + ",\"text\":\"" + ( brief ? "" : chars( text ) ) + "\",\"at\":[" + at + "]}" );
   seqs::step();
}

template < class C > struct collect : public raft::kernel
{
   const int p; const std::string how;
   collect( int i, const std::string &h ) : p( i ), how( h ) { input.addPort< C >( "0" ); }
   virtual raft::kstatus run()
   {
      auto &f( input[ "0" ] );
      raft::signal s( raft::none );
      if( how == "pops" ) { auto c( f.template pop_s< C >() ); note( p, const_cast< C& >( *c ), c.sig(), false ); }
      else if( how == "peek" || how == "iter" )
      {
         auto &c( f.template peek< C >( &s ) );
         note( p, c, s, how == "iter" );
         f.unpeek();
         f.recycle( 1 );
      }
      else
      {
         C c;
         f.template pop< C >( c, &s );
         note( p, c, s, false );
      }
      return( raft::proceed );
   }
};
template < class C > struct fwd : public raft::kernel
{
   fwd() { input.addPort< C >( "0" ); output.addPort< C >( "0" ); }
   virtual raft::kstatus run()
   {
      C c; raft::signal s( raft::none );
      input[ "0" ].template pop< C >( c, &s );
      C d( c );
      output[ "0" ].template push< C >( d, s );
      return( raft::proceed );
   }
};
struct matches : public raft::kernel
{
   const int p;
   matches( int i ) : p( i ) { input.addPort< raft::match_t >( "0" ); }
   virtual raft::kstatus run()
   {
      raft::match_t m;
      input[ "0" ].pop< raft::match_t >( m );
      quiet q;
      got[ p ].push_back( "[" + num( m.first ) + "," + num( m.second ) + "]" );
      seqs::step();
      return( raft::proceed );
   }
};

struct par { int size = 0, ov = 0, ports = 1, cap = 0; long len = -1; std::string how, data, term, path; };

template < std::size_t S > static void go( const par &x )
{
   using C = raft::filechunk< S >;
   std::unique_ptr< raft::filereader< C > > r( new raft::filereader< C >( x.path, x.ov, x.ports ) );
   std::vector< std::unique_ptr< raft::kernel > > ks;
   raft::map m;
   auto link = [&]( raft::kernel *a, const std::string &ap, raft::kernel *b )
   { if( x.cap > 0 ) m.link( a, ap, b, "0", x.cap ); else m.link( a, ap, b, "0" ); };
   for( int p = 0; p < x.ports; p++ )
   {
      raft::kernel *a = r.get(); std::string ap = num( p );
      if( x.how == "search" )
      {
         ks.emplace_back( new raft::search< C, raft::stdlib >( bytes( x.term ) ) );
         link( a, ap, ks.back().get() );
         a = ks.back().get(); ap = "0";
         ks.emplace_back( new matches( p ) );
      }
      else
      {
         if( x.how == "fwd" )
         {
            ks.emplace_back( new fwd< C >() );
            link( a, ap, ks.back().get() );
            a = ks.back().get(); ap = "0";
         }
         ks.emplace_back( new collect< C >( p, x.how ) );
      }
      link( a, ap, ks.back().get() );
   }
   m.exe();
}

static void run_one( const seqs::seq &q )
{
   par x;
   for( auto &l : q.lines )
   {
      std::stringstream ss( l ); std::string o; ss >> o;
      if( o == "F" ) ss >> x.size >> x.ov >> x.ports >> x.cap >> x.how;
      else if( o == "D" ) ss >> x.data;
      else if( o == "L" ) ss >> x.len;
      else ss >> x.term;
   }
   x.path = scratch + "/in-" + std::to_string( getpid() );
   FILE *f = fopen( x.path.c_str(), "w" );
   const std::string b = bytes( x.data );
   fwrite( b.data(), 1, b.size(), f );
   fclose( f );
   brief = x.len >= 0;
   if( brief && truncate( x.path.c_str(), x.len ) != 0 ) seqs::fail( "harness", "truncate" );
   const int low = open( "/dev/null", O_RDONLY ); close( low );
   got.assign( x.ports, {} );
   sim::config c; c.max_steps = 200000000;
   c.seed = seed * 1013 + q.id;
   c.policy = q.id % 4 == 3 ? sim::PCT : sim::RANDOM;
   static const int den[] = { 4, 30, 200 };
   c.denom = den[ q.id % 3 ]; c.depth = 4; c.horizon = 4000; c.quantum = 400;
   const auto r = sim::run( c, [&]()
   {
#define S( n ) case n: go< n >( x ); break;
      switch( x.size )
      {
         S( 2 ) S( 3 ) S( 4 ) S( 5 ) S( 6 ) S( 7 ) S( 9 ) S( 17 ) S( 33 ) S( 40 ) S( 41 ) S( 65 ) S( 100 ) S( 512 ) S( 4097 )
         default: seqs::fail( "harness", "no such size" );
      }
   } );
   for( int i = low; i < low + 4; i++ ) close( i );
   unlink( x.path.c_str() );
   if( ! r.ok ) { seqs::fail( r.what.compare( 0, 4, "hang" ) == 0 || r.what.compare( 0, 4, "dead" ) == 0 ? "hang" : "memory", r.what ); return; }
   std::string s = "[";
   for( auto &p : got )
   {
      if( s.size() > 1 ) s += ",";
      s += "[";
      for( std::size_t i = 0; i < p.size(); i++ ) s += ( i ? "," : "" ) + p[ i ];
      s += "]";
   }
   seqs::report( s + "]" );
}
int main( int argc, char **argv )
{
   if( argc > 2 ) seed = atoll( argv[ 2 ] );
   if( argc > 3 ) scratch = argv[ 3 ];
   return( seqs::main( argc, argv, run_one ) );
}
