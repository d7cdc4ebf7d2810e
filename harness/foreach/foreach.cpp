/**
 * foreach - arrays processed in place by real kernels, reported for
 * spec/ForEachTrace.tla.  Element type by TYPE (fifo/types.hpp).
 *
 * usage:  foreach <file> <seed>
 * file:   N <id>
 *         F <len> <workers> <link|many> <class: 0 for_each, 1 the user's kernel>
 *         W <worker> <n> <op:k>*n
 * output: R <id> <json>, FAIL ..., DONE <behaviours> <steps>
 */
#include <raft>
#include "fifo.hpp"
#include "foreach.tcc"
#include "../fifo/types.hpp"
#include "../sim/detsim.hpp"
#include "../sim/seqs.hpp"
#include <memory>
#include <new>

using T = elem;
struct quiet { quiet() { sim::no_preempt( true ); } ~quiet() { sim::no_preempt( false ); } };
static const int EXTRA = 3;
static long written( long v ) { return( v + 1000 ); }

struct op { std::string o; int k; };
static std::vector< std::vector< std::pair< long, long > > > saw;
static void see( int w, long idx, long v ) { quiet q; saw[ w ].emplace_back( idx, v ); }
static void put( T &t ) { const long v = el< T >::id( t ); t = el< T >::mk( written( v ) ); }

template < class K > static void step( K &k, FIFO &f, const int w, const op &o )
{
   const int left = (int) f.size();
   const int n = std::min( left, o.k );
   if( left == 0 ) return;
   if( o.o == "pop" ) { T t( el< T >::mk( 1 ) ); f.pop< T >( t ); see( w, -1, el< T >::id( t ) ); }
   else if( o.o == "pops" ) { auto t( f.pop_s< T >() ); see( w, -1, el< T >::id( *t ) ); }
   else if( o.o == "popr" )
   {
      std::vector< std::pair< T, raft::signal > > v; 
      for( int i = 0; i < n; i++ ) v.emplace_back( el< T >::mk( 1 ), raft::none );
      f.pop_range< T >( v, n );
      for( auto &x : v ) see( w, -1, el< T >::id( x.first ) );
   }
   else if( o.o == "peek" )
   {
      T &t( f.peek< T >() );
      see( w, -1, el< T >::id( t ) );
      put( t );
      f.unpeek();
      f.recycle( 1 );
   }
   else if( o.o == "peekr" || o.o == "look" )
   {
      {
         {
            auto r( f.peek_range< T >( n ) );
            const long at = (long) r.getindex();
            if( (int) r.size() != n ) seqs::fail( "size", "peek_range( " + std::to_string( n ) + " ) shows " + std::to_string( r.size() ) );
            for( int i = 0; i < n; i++ )
            {
               auto p( r[ i ] );
               see( w, at + i, el< T >::id( p.ele ) );
               if( o.o == "peekr" ) put( p.ele );
            }
         }
         if( o.o == "peekr" ) f.recycle( n );
      }
   }
   else if( o.o == "skip" ) f.recycle( n );
   seqs::step();
}

struct worker : public raft::kernel
{
   const int w; std::vector< op > plan; std::size_t at = 0;
   worker( int i, const std::vector< op > &p ) : w( i ), plan( p ) { input.addPort< T >( "in" ); }
   virtual raft::kstatus run()
   {
      const op o = at < plan.size() ? plan[ at ] : op{ "pop", 1 };
      at++;
      step( *this, input[ "in" ], w, o );
      return( raft::proceed );
   }
};
/** one of many clones **/
static int clones;
struct many : public raft::kernel
{
   const int w;
   void ports() { input.addPort< T >( "in" ); output.addPort< int >( "out" ); }
   many() : w( 0 ) { clones = 1; ports(); }
   many( const many & ) : raft::kernel(), w( clones++ ) { ports(); }
   virtual raft::kernel *clone() { return( new many( *this ) ); }
   virtual raft::kstatus run()
   {
      step( *this, input[ "in" ], w, { "peekr", 1 + w % 3 } );
      int x = w;
      output[ "out" ].push( x );
      return( raft::proceed );
   }
};
struct gather : public raft::kernel
{
   int n;
   gather( int k ) : n( k ) { for( int i = 0; i < n; i++ ) input.addPort< int >( "i" + std::to_string( i ) ); }
   virtual raft::kstatus run()
   {
      for( auto &p : input ) while( p.size() > 0 ) { int x; p.pop( x ); }
      return( raft::proceed );
   }
};
struct users : public raft::kernel
{
   users( T *p, std::size_t n, std::size_t ports ) : raft::kernel( p, n * sizeof( T ) ) { output.addInPlacePorts< T >( ports ); }
   virtual raft::kstatus run() { return( raft::stop ); }
};

static std::string num( long x ) { return( std::to_string( x ) ); }
template < class V, class F > static std::string lst( const V &v, F f )
{
   std::string s = "[";
   for( auto &x : v ) { if( s.size() > 1 ) s += ","; s += f( x ); }
   return( s + "]" );
}
static std::uint64_t seed = 1;

static void run_one( const seqs::seq &q )
{
   track::reset();
   sim::config c; c.max_steps = 200000000;
   c.seed = seed * 1013 + q.id;
   c.policy = q.id % 4 == 3 ? sim::PCT : sim::RANDOM;
   static const int den[] = { 4, 30, 200 };
   c.denom = den[ q.id % 3 ]; c.depth = 4; c.horizon = 4000; c.quantum = 400; c.tso = ( q.id / 4 ) & 1;
   std::string out;
   const auto r = sim::run( c, [&]()
   {
      int len = 0, n = 0, cls = 0; std::string how;
      std::vector< std::vector< op > > plan;
      for( auto &l : q.lines )
      {
         std::stringstream ss( l );
         std::string o; ss >> o;
         if( o == "F" ) { ss >> len >> n >> how >> cls; plan.resize( n ); }
         else
         {
            int w, k; ss >> w >> k;
            for( int i = 0; i < k; i++ ) { std::string x; ss >> x; plan[ w - 1 ].push_back( { x.substr( 0, x.find( ':' ) ), atoi( x.c_str() + x.find( ':' ) + 1 ) } ); }
         }
      }
      saw.assign( n, {} );
      /** the caller's array, with some more elements on both sides **/
      T *mem = (T*) ::operator new( sizeof( T ) * ( len + 2 * EXTRA ) );
      for( int i = 0; i < len + 2 * EXTRA; i++ ) new ( mem + i ) T( el< T >::mk( 10 + i - EXTRA ) );
      {
         T *arr = mem + EXTRA;
         std::unique_ptr< raft::kernel > fe( cls ? (raft::kernel*) new users( arr, len, n ) : (raft::kernel*) new raft::for_each< T >( arr, len, n ) );
         std::vector< std::unique_ptr< worker > > ws;
         std::unique_ptr< many > m1;
         std::unique_ptr< gather > g;
         raft::map m;
         if( how == "link" )
            for( int w = 0; w < n; w++ )
            {
               ws.push_back( std::make_unique< worker >( w, plan[ w ] ) );
               m.link( fe.get(), num( w ), ws.back().get(), "in" );
            }
         else
         {
            m1 = std::make_unique< many >(); g = std::make_unique< gather >( n );
            m += *fe <= *m1 >= *g;
         }
         m.exe();
      }
      quiet nq;
      std::vector< long > now;
      bool outside = true;
      for( int i = 0; i < len + 2 * EXTRA; i++ )
      {
         const long v = el< T >::id( mem[ i ] );
         if( i < EXTRA || i >= len + EXTRA ) { if( v != el< T >::of( 10 + i - EXTRA ) ) outside = false; }
         else now.push_back( v );
         mem[ i ].~T();
      }
      ::operator delete( mem );
      if( el< T >::tracked && track::live() != 0 ) seqs::fail( "live", num( track::live() ) + " elements never destroyed" );
      out = "{\"saw\":" + lst( saw, []( const std::vector< std::pair< long, long > > &v ) { return( lst( v, []( const std::pair< long, long > &p ) { return( "[" + num( p.first ) + "," + num( p.second ) + "]" ); } ) ); } )
         + ",\"mem\":" + lst( now, num ) + ",\"outside\":" + ( outside ? "true" : "false" ) + "}";
   } );
   if( ! r.ok ) seqs::fail( r.what.compare( 0, 4, "hang" ) == 0 || r.what.compare( 0, 4, "dead" ) == 0 ? "hang" : r.what.compare( 0, 4, "life" ) == 0 ? "lifetime" : "memory", r.what );
   else seqs::report( out );
}
int main( int argc, char **argv ) { if( argc > 2 ) seed = atoll( argv[ 2 ] ); track::report = []( const char *x ) { sim::fault( x ); }; return( seqs::main( argc, argv, run_one ) ); }
