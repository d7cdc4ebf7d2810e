/**
 * place - sets placement hints on real kernels, executes the graph and
 * reports where everything went, for spec/PlacementTrace.tla.
 *
 * usage:  place <file> <seed>
 * file:   N <id>
 *         G <kernels> <items> <parent>*kernels
 *         B <n> <modifier: c0 g1 m7 ...>*n <m> <kernel>*m    manip<...>::bind(...)
 *         C <kernel> <core>                                  setCore
 *         X <default|dummy|basic|own> <cores>                execute
 * output: R <id> <json>, FAIL ..., DONE <behaviours> <steps>
 */
#include <raft>
#include <raftmanip>
#include "partition_basic.hpp"
#include "partition_dummy.hpp"
#include "../sim/detsim.hpp"
#include "../sim/seqs.hpp"
#include <affinity>
#include <map>
#include <memory>
#include <thread>

static unsigned machine = 1;
/** the machine has as many cores as the behaviour says **/
unsigned int std::thread::hardware_concurrency() noexcept { return( machine ); }

struct quiet { quiet() { sim::no_preempt( true ); } ~quiet() { sim::no_preempt( false ); } };
struct pin { int who; long core; };
struct act { int who, k, pins; };
static std::vector< pin > pins;
static std::vector< act > acts;
static std::vector< std::pair< int, int > > marks;
static std::vector< int > given;
static void pinned( long c ) { quiet q; pins.push_back( { sim::self(), c } ); }

template < class K > static long group_of( K &k ) { if constexpr( requires { k.affinity_group; } ) return( k.affinity_group ); else return( -99 ); }

struct node : public raft::kernel
{
   int id, nout, items, next = 0; bool root, ran = false;
   std::vector< long > got;
   node( int i, int out, bool r, int n ) : id( i ), nout( out ), items( n ), root( r )
   {
      if( ! root ) input.addPort< int >( "in" );
      for( int o = 0; o < nout; o++ ) output.addPort< int >( "o" + std::to_string( o ) );
   }
   long group() { struct peek : public node { static long of( node &n ) { return( group_of( static_cast< peek& >( n ) ) ); } }; return( peek::of( *this ) ); }
   virtual raft::kstatus run()
   {
      if( ! ran ) { quiet q; ran = true; acts.push_back( { sim::self(), id, (int) pins.size() } ); }
      int v;
      if( root ) { if( next == items ) return( raft::stop ); v = ++next; }
      else { input[ "in" ].pop( v ); quiet q; got.push_back( v ); }
      for( int o = 0; o < nout; o++ ) output[ "o" + std::to_string( o ) ].push( v );
      return( raft::proceed );
   }
};

template < int N > struct mark { static void invoke( raft::kernel &&k ) { marks.emplace_back( N, static_cast< node& >( k ).id ); } };
template < std::size_t N > using core = raft::parallel::device< raft::parallel::cpu, N >;
template < std::size_t N > using group = raft::parallel::affinity_group< N >;

using words = std::vector< std::string >;
static std::vector< int > returned;
template < class... M, class... K > static void bind( K&... k )
{
   auto r( raft::manip< M... >::bind( k... ) );
   for( auto &x : r ) returned.push_back( static_cast< node& >( x.get() ).id );
}
template < class... M > static void bound( const words &m, const std::vector< node* > &k )
{
   if( m.size() == sizeof...( M ) )
   {
      switch( k.size() )
      {
         case 0: bind< M... >(); break;
         case 1: bind< M... >( *k[ 0 ] ); break;
         case 2: bind< M... >( *k[ 0 ], *k[ 1 ] ); break;
         case 3: bind< M... >( *k[ 0 ], *k[ 1 ], *k[ 2 ] ); break;
         default: seqs::fail( "harness", "too many kernels" );
      }
      return;
   }
   if constexpr( sizeof...( M ) < 3 )
   {
      const auto &w( m[ sizeof...( M ) ] );
      if( w == "c0" ) bound< M..., core< 0 > >( m, k );
      else if( w == "c1" ) bound< M..., core< 1 > >( m, k );
      else if( w == "c3" ) bound< M..., core< 3 > >( m, k );
      else if( w == "g1" ) bound< M..., group< 1 > >( m, k );
      else if( w == "g2" ) bound< M..., group< 2 > >( m, k );
      else if( w == "m7" ) bound< M..., mark< 7 > >( m, k );
      else seqs::fail( "harness", "unknown modifier " + w );
   }
   else seqs::fail( "harness", "too many modifiers" );
}

struct partition_own : public interface_partition
{
   virtual void partition( kernelkeeper &c )
   {
      auto &all( c.acquire() );
      for( auto *k : all )
      {
         const int id = static_cast< node* >( k )->id;
         given.push_back( id );
         setCore( *k, 2 * id + 1 );
      }
      c.release();
   }
};

static std::string num( long x ) { return( std::to_string( x ) ); }
template < class V, class F > static std::string lst( const V &v, F f )
{
   std::string s = "[";
   for( auto &x : v ) { if( s.size() > 1 ) s += ","; s += f( x ); }
   return( s + "]" );
}
static std::uint64_t seed = 1;

static void run_one( const seqs::seq &q )
{
   pins.clear(); acts.clear(); marks.clear(); given.clear(); machine = 4;
   raft::verif_affinity = pinned;
   sim::config c;
   c.seed = seed * 1009 + q.id;
   c.policy = q.id % 4 == 3 ? sim::PCT : sim::RANDOM;
   static const int den[] = { 3, 20, 120 };
   c.denom = den[ q.id % 3 ]; c.depth = 4; c.horizon = 4000; c.quantum = 400;
   std::string out;
   const auto r = sim::run( c, [&]()
   {
      std::vector< std::unique_ptr< node > > ks;
      std::vector< int > parent;
      raft::map m;
      std::vector< std::string > steps;
      auto cores = [&]() { return( lst( ks, []( const std::unique_ptr< node > &k ) { return( num( k->getCoreAssignment() ) ); } ) ); };
      for( auto &l : q.lines )
      {
         quiet nq;
         std::stringstream ss( l );
         std::string o; int n, x;
         ss >> o;
         if( o == "G" )
         {
            int items;
            ss >> n >> items;
            parent.resize( n );
            std::vector< int > nout( n + 1, 0 );
            for( auto &p : parent ) { ss >> p; nout[ p ]++; }
            for( int i = 1; i <= n; i++ ) ks.push_back( std::make_unique< node >( i, nout[ i ], parent[ i - 1 ] == 0, items ) );
            std::vector< int > used( n + 1, 0 );
            for( int i = 1; i <= n; i++ )
               if( const int p = parent[ i - 1 ] ) m.link( ks[ p - 1 ].get(), "o" + num( used[ p ]++ ), ks[ i - 1 ].get(), "in" );
            continue;
         }
         returned.clear();
         if( o == "B" )
         {
            ss >> n;
            words w( n ); for( auto &s : w ) ss >> s;
            ss >> n;
            std::vector< node* > k; for( int i = 0; i < n; i++ ) { ss >> x; k.push_back( ks[ x - 1 ].get() ); }
            bound<>( w, k );
         }
         else if( o == "C" ) { ss >> x >> n; ks[ x - 1 ]->setCore( n ); }
         else break;
         steps.push_back( "{\"core\":" + cores() + ",\"group\":" + lst( ks, []( const std::unique_ptr< node > &k ) { return( num( k->group() ) ); } )
            + ",\"log\":" + lst( marks, []( const std::pair< int, int > &p ) { return( "[" + num( p.first ) + "," + num( p.second ) + "]" ); } )
            + ",\"got\":" + lst( returned, num ) + "}" );
         seqs::step();
      }
      std::stringstream ss( q.lines.back() );
      std::string o, part;
      ss >> o >> part >> machine;
      if( part == "default" )      m.exe();
      else if( part == "dummy" )   m.exe< partition_dummy >();
      else if( part == "basic" )   m.exe< partition_basic >();
      else                         m.exe< partition_own >();
      quiet nq;
      seqs::step();
      out = "{\"steps\":" + lst( steps, []( const std::string &s ) { return( s ); } ) + ",\"core\":" + cores() + ",\"seen\":" + lst( given, num )
         + ",\"pins\":" + lst( pins, []( const pin &p ) { return( "[" + num( p.who ) + "," + num( p.core ) + "]" ); } )
         + ",\"acts\":" + lst( acts, []( const act &a ) { return( "[" + num( a.who ) + "," + num( a.k ) + "," + num( a.pins ) + "]" ); } )
         + ",\"out\":" + lst( ks, []( const std::unique_ptr< node > &k ) { return( lst( k->got, num ) ); } ) + "}";
   } );
   raft::verif_affinity = nullptr;
   if( ! r.ok ) seqs::fail( r.what.compare( 0, 4, "hang" ) == 0 || r.what.compare( 0, 4, "dead" ) == 0 ? "hang" : "run", r.what );
   else seqs::report( out );
}
int main( int argc, char **argv ) { if( argc > 2 ) seed = atoll( argv[ 2 ] ); return( seqs::main( argc, argv, run_one ) ); }
