/**
 * adapt - the ready-made kernels in real graphs, reported for
 * spec/AdaptorsTrace.tla.  Element type by TYPE (fifo/types.hpp).
 *
 * usage:  adapt <file> <seed>
 * file:   N <id>
 *         P <k> <source> <container> <stages> <sink> <delimiter> <how> <capacity>
 *           source: feed | read | lambda | random
 *           container (read): vector list array stream
 *           stages: - or letters  e: one lambdak for each stream,  m: one for
 *           all of them,  t: from int to the element type,  p: one port type each
 *           sink: print | back | list | array | select | lambda | sum | mult (elements of the streams together)
 *           delimiter: 0 none, 1 space, 2 newline, 3 comma
 *           how: 0 as it is, 1 a copy, 2 a clone (print, random); print: 3 to std::cout, 4, 5 without the number of streams
 *         B                       a batch
 *         E <stream> <element>*
 * output: R <id> <json>, FAIL ..., DONE <behaviours> <steps>
 */
#include "../fifo/types.hpp"
#undef TYPE
#include <raft>
#include <raftio>
#include <raftrandom>
#include <raftmath>
#include "../sim/detsim.hpp"
#include "../sim/seqs.hpp"
#include <list>
#include <memory>
#include <random>
#include <sstream>

using T = elem;
struct quiet { quiet() { sim::no_preempt( true ); } ~quiet() { sim::no_preempt( false ); } };

template < class X > struct ad { static X mk( long v ) { return( el< X >::mk( v ) ); } static long id( const X &x ) { return( el< X >::id( x ) ); } };
template <> struct ad< double > { static double mk( long v ) { return( v ); } static long id( double x ) { return( (long) x ); } };
template <> struct ad< std::string > { static std::string mk( long v ) { return( std::to_string( v ) ); } static long id( const std::string &x ) { return( atol( x.c_str() ) ); } };
#define SHOWN( X ) std::ostream &operator<<( std::ostream &o, const X &x ) { return( o << el< X >::id( x ) ); }
SHOWN( Pod ) SHOWN( Tracked ) SHOWN( Big ) SHOWN( BigTracked )

using lists = std::vector< std::vector< long > >;
struct par
{
   int k = 0, delim = 0, how = 0, cap = 0; std::string src, cont, stages, sink;
   std::vector< lists > batches;
   lists all() const
   {
      lists r( k );
      for( auto &b : batches ) for( int i = 0; i < k; i++ ) r[ i ].insert( r[ i ].end(), b[ i ].begin(), b[ i ].end() );
      return( r );
   }
};
static std::string num( long x ) { return( std::to_string( x ) ); }

template < class X > struct feeder : public raft::kernel
{
   const par &x;
   feeder( const par &p ) : x( p ) { for( int i = 0; i < p.k; i++ ) output.addPort< X >( num( i ) ); }
   virtual raft::kstatus run()
   {
      for( auto &b : x.batches )
      {
         std::vector< std::size_t > at( x.k, 0 );
         for( bool more = true; more; )
         {
            more = false;
            for( int i = 0; i < x.k; i++ ) if( at[ i ] < b[ i ].size() )
            {
               output[ num( i ) ].template push< X >( ad< X >::mk( b[ i ][ at[ i ]++ ] ) );
               more = true;
            }
         }
         for( int i = 0; i < x.k; i++ ) while( output[ num( i ) ].size() != 0 ) std::this_thread::yield();
      }
      return( raft::stop );
   }
};

static std::vector< long > got;
/** takes from whichever stream raft::select offers **/
struct selecting : public raft::kernel
{
   const int k; int runs = 0;
   selecting( int n ) : k( n ) { for( int i = 0; i < k; i++ ) input.addPort< T >( num( i ) ); }
   raft::select_t pick()
   {
      /** the streams only grow while this kernel looks at them **/
      std::vector< std::size_t > before;
      bool any = false;
      for( int i = 0; i < k; i++ ) { before.push_back( input[ num( i ) ].size() ); any |= before.back() > 0; }
      auto r( k == 1 ? raft::select::in( input, "0" ) : k == 2 ? raft::select::in( input, "0", "1" ) : k == 3 ? raft::select::in( input, "0", "1", "2" ) : raft::select::in( input, "0", "1", "2", "3" ) );
      bool one = false;
      for( int i = 0; i < k; i++ )
      {
         auto &f( input[ num( i ) ] );
         if( &f != &r.second.get() ) continue;
         one = true;
         const std::size_t after = f.size();
         quiet q;
         if( r.first < before[ i ] || r.first > after ) seqs::fail( "select-size", "told " + num( r.first ) + " elements, there were " + num( before[ i ] ) + " before and " + num( after ) + " after" );
      }
      quiet q;
      if( ! one ) seqs::fail( "select-stream", "not one of the streams asked for" );
      if( any && r.first == 0 ) seqs::fail( "select-some", "told that none has data" );
      return( r );
   }
   virtual raft::kstatus run()
   {
      auto r( pick() );
      const std::size_t n = runs++ % 2 ? r.first : std::min< std::size_t >( 1, r.first );
      for( std::size_t i = 0; i < n; i++ )
      {
         auto &t( r.second.get().template peek< T >() );
         { quiet q; got.push_back( ad< T >::id( t ) ); }
         r.second.get().unpeek();
         r.second.get().recycle( 1 );
      }
      return( raft::proceed );
   }
};
/** takes one of each and puts them together **/
template < class X > struct combining : public raft::kernel
{
   const int k; const bool mult;
   combining( int k, bool m ) : k( k ), mult( m ) { for( int i = 0; i < k; i++ ) input.template addPort< X >( num( i ) ); sched_behav = raft::all_port; }
   virtual raft::kstatus run()
   {
      if constexpr( std::is_arithmetic< X >::value )
      {
         auto &p( input );
         const X x( mult ? ( k == 1 ? raft::mult< X >( p[ "0" ] ) : k == 2 ? raft::mult< X >( p[ "0" ], p[ "1" ] ) : raft::mult< X >( p[ "0" ], p[ "1" ], p[ "2" ] ) )
                         : ( k == 1 ? raft::sum< X >( p[ "0" ] ) : k == 2 ? raft::sum< X >( p[ "0" ], p[ "1" ] ) : raft::sum< X >( p[ "0" ], p[ "1" ], p[ "2" ] ) ) );
         quiet q;
         got.push_back( (long) x );
      }
      return( raft::proceed );
   }
};
template < class BI > struct inserting : public raft::writeeach< T, BI >
{
   inserting( BI &b, int k ) : raft::writeeach< T, BI >( b ) { for( int i = 1; i < k; i++ ) (this)->template addPortTo< T >( (this)->input ); }
};
/** successive numbers **/
template < class X > struct counting
{
   long v;
   counting( long f ) : v( f ) {}
   template < class G > X operator()( G & ) { return( ad< X >::mk( v++ ) ); }
};
template < class X > using numbers = raft::random_variate< std::minstd_rand, counting, X >;
template < class X > static X plus( const X &a ) { return( ad< X >::mk( ad< X >::id( a ) + 1000 ) ); }

/** clones are the map's **/
struct mine { bool not_mine = false; void operator()( raft::kernel *k ) { if( ! not_mine ) delete( k ); } };
using kernels = std::vector< std::unique_ptr< raft::kernel, mine > >;
struct end { raft::kernel *k; std::string p; };

template < class X, class C > static void keep( std::vector< std::shared_ptr< void > > &mem, C *c ) { mem.emplace_back( c, []( void *p ) { delete( (C*) p ); } ); }

template < class X > static std::vector< end > sources( const par &x, kernels &ks, std::vector< std::shared_ptr< void > > &mem )
{
   std::vector< end > r;
   const lists all( x.all() );
   if( x.src == "feed" )
   {
      ks.emplace_back( new feeder< X >( x ) );
      for( int i = 0; i < x.k; i++ ) r.push_back( { ks.back().get(), num( i ) } );
   }
   else if( x.src == "lambda" )
   {
      auto at = std::make_shared< std::vector< std::size_t > >( x.k, 0 );
      const int k = x.k;
      ks.emplace_back( new raft::lambdak< X >( 0, x.k, [ at, all, k ]( Port &, Port &output )
      {
         bool more = false;
         for( int i = 0; i < k; i++ ) if( (*at)[ i ] < all[ i ].size() )
         {
            output[ num( i ) ].template push< X >( ad< X >::mk( all[ i ][ (*at)[ i ]++ ] ) );
            more = true;
         }
         return( more ? raft::proceed : raft::stop );
      } ) );
      for( int i = 0; i < x.k; i++ ) r.push_back( { ks.back().get(), num( i ) } );
   }
   else for( int i = 0; i < x.k; i++ )
   {
      std::vector< X > v;
      for( long e : all[ i ] ) v.push_back( ad< X >::mk( e ) );
      if( x.src == "random" )
      {
         auto *n( new numbers< X >( all[ i ].size(), all[ i ].empty() ? 0 : all[ i ][ 0 ] ) );
         if( x.how == 2 ) { ks.emplace_back( n->clone(), mine{ true } ); delete( n ); } else ks.emplace_back( n );
      }
      else if( x.cont == "list" )
      {
         auto *c( new std::list< X >( v.begin(), v.end() ) ); keep< X >( mem, c );
         auto k( raft::read_each< X >( c->begin(), c->end() ) );
         ks.emplace_back( new decltype( k )( k ) );
      }
      else if( x.cont == "array" )
      {
         auto *c( new std::vector< X >( v ) ); keep< X >( mem, c );
         auto k( raft::read_each< X >( c->data(), c->data() + c->size() ) );
         ks.emplace_back( new decltype( k )( k ) );
      }
      else
      {
         if constexpr( std::is_same< X, int >::value || std::is_same< X, double >::value || std::is_same< X, std::string >::value )
         {
            if( x.cont == "stream" )
            {
               auto *c( new std::stringstream() ); keep< X >( mem, c );
               for( auto &e : v ) *c << e << " ";
               auto k( raft::read_each< X >( std::istream_iterator< X >( *c ), std::istream_iterator< X >() ) );
               ks.emplace_back( new decltype( k )( k ) );
               r.push_back( { ks.back().get(), "0" } );
               continue;
            }
         }
         auto *c( new std::vector< X >( v ) ); keep< X >( mem, c );
         auto k( raft::read_each< X >( c->begin(), c->end() ) );
         ks.emplace_back( new decltype( k )( k ) );
      }
      r.push_back( { ks.back().get(), "0" } );
   }
   return( r );
}
template < char D > static void printing( const par &x, kernels &ks, std::ostream &os )
{
   auto *p( x.how == 3 ? new raft::print< T, D >( x.k ) : x.how == 4 ? new raft::print< T, D >() : x.how == 5 ? new raft::print< T, D >( os ) : new raft::print< T, D >( os, x.k ) );
   if( x.how == 2 ) { ks.emplace_back( p->clone(), mine{ true } ); delete( p ); }
   else if( x.how == 1 ) { ks.emplace_back( new raft::print< T, D >( *p ) ); delete( p ); }
   else ks.emplace_back( p );
}

static std::uint64_t seed = 1;
static void run_one( const seqs::seq &q )
{
   track::reset();
   par x;
   for( auto &l : q.lines )
   {
      std::stringstream ss( l ); std::string o; ss >> o;
      if( o == "P" ) ss >> x.k >> x.src >> x.cont >> x.stages >> x.sink >> x.delim >> x.how >> x.cap;
      else if( o == "B" ) x.batches.emplace_back( x.k );
      else { int i; ss >> i; for( long e; ss >> e; ) x.batches.back()[ i ].push_back( e ); }
   }
   sim::config c; c.max_steps = 200000000;
   c.seed = seed * 1013 + q.id;
   c.policy = q.id % 4 == 3 ? sim::PCT : sim::RANDOM;
   static const int den[] = { 4, 30, 200 };
   c.denom = den[ q.id % 3 ]; c.depth = 4; c.horizon = 4000; c.quantum = 400;
   got.clear();
   std::string out;
   std::streambuf * const console( std::cout.rdbuf() );
   const auto r = sim::run( c, [&]()
   {
      std::size_t total = 0;
      for( auto &l : x.all() ) total += l.size();
      std::stringstream text;
      std::cout.rdbuf( text.rdbuf() );
      {
         std::vector< std::shared_ptr< void > > mem;
         std::vector< T > vec; std::list< T > lst;
         std::vector< T > arr( total, ad< T >::mk( -1 ) );
         auto bi( std::back_inserter( vec ) );
         auto li( std::back_inserter( lst ) );
         T *ai( arr.data() );
         kernels ks;
         raft::map m;
         auto link = [&]( const end &a, raft::kernel *b, const std::string &p ) { if( x.cap > 0 ) m.link( a.k, a.p, b, p, x.cap ); else m.link( a.k, a.p, b, p ); };
         std::vector< end > at( x.stages[ 0 ] == 't' ? sources< int >( x, ks, mem ) : sources< T >( x, ks, mem ) );
         for( char s : x.stages )
         {
            if( s == 'm' )
            {
               const int k = x.k;
               ks.emplace_back( new raft::lambdak< T >( k, k, [ k ]( Port &in, Port &out )
               {
                  for( int i = 0; i < k; i++ ) if( in[ num( i ) ].size() > 0 )
                  {
                     T t( ad< T >::mk( 0 ) );
                     in[ num( i ) ].pop< T >( t );
                     out[ num( i ) ].push< T >( plus( t ) );
                  }
                  return( raft::proceed );
               } ) );
               for( int i = 0; i < k; i++ ) { link( at[ i ], ks.back().get(), num( i ) ); at[ i ] = { ks.back().get(), num( i ) }; }
            }
            else if( s != '-' ) for( int i = 0; i < x.k; i++ )
            {
               auto f = []( Port &in, Port &out )
               {
                  auto v( in[ "0" ].pop_s< T >() );
                  auto w( out[ "0" ].allocate_s< T >() );
                  (*w) = plus< T >( *v );
                  return( raft::proceed );
               };
               if( s == 't' ) ks.emplace_back( new raft::lambdak< int, T >( 1, 1, []( Port &in, Port &out )
               {
                  int v( 0 );
                  in[ "0" ].pop< int >( v );
                  out[ "0" ].push< T >( ad< T >::mk( v + 1000 ) );
                  return( raft::proceed );
               } ) );
               else if( s == 'p' ) ks.emplace_back( new raft::lambdak< T, T >( 1, 1, f ) );
               else ks.emplace_back( new raft::lambdak< T >( 1, 1, f ) );
               link( at[ i ], ks.back().get(), "0" );
               at[ i ] = { ks.back().get(), "0" };
            }
         }
         if( x.sink == "print" ) switch( x.delim )
         {
            case 0: printing< '\0' >( x, ks, text ); break;
            case 1: printing< ' ' >( x, ks, text ); break;
            case 2: printing< '\n' >( x, ks, text ); break;
            default: printing< ',' >( x, ks, text ); break;
         }
         else if( x.sink == "back" )
         {
            if( x.k > 1 ) ks.emplace_back( new inserting< decltype( bi ) >( bi, x.k ) );
            else { auto k( raft::write_each< T >( std::back_inserter( vec ) ) ); ks.emplace_back( new decltype( k )( k ) ); }
         }
         else if( x.sink == "list" )
         {
            if( x.k > 1 ) ks.emplace_back( new inserting< decltype( li ) >( li, x.k ) );
            else { auto k( raft::write_each< T >( std::back_inserter( lst ) ) ); ks.emplace_back( new decltype( k )( k ) ); }
         }
         else if( x.sink == "array" ) ks.emplace_back( new inserting< T* >( ai, x.k ) );
         else if( x.sink == "sum" || x.sink == "mult" ) ks.emplace_back( new combining< T >( x.k, x.sink == "mult" ) );
         else if( x.sink == "select" ) ks.emplace_back( new selecting( x.k ) );
         else
         {
            const int k = x.k;
            ks.emplace_back( new raft::lambdak< T >( k, 0, [ k ]( Port &in, Port & )
            {
               for( int i = 0; i < k; i++ ) if( in[ num( i ) ].size() > 0 )
               {
                  auto &t( in[ num( i ) ].peek< T >() );
                  { quiet q; got.push_back( ad< T >::id( t ) ); }
                  in[ num( i ) ].unpeek();
                  in[ num( i ) ].recycle( 1 );
               }
               return( raft::proceed );
            } ) );
         }
         for( int i = 0; i < x.k; i++ ) link( at[ i ], ks.back().get(), num( i ) );
         m.exe();
         quiet nq;
         for( auto &e : vec ) got.push_back( ad< T >::id( e ) );
         for( auto &e : lst ) got.push_back( ad< T >::id( e ) );
         if( x.sink == "array" ) for( auto &e : arr ) got.push_back( ad< T >::id( e ) );
      }
      quiet nq;
      if( el< T >::tracked && track::live() != 0 ) seqs::fail( "live", num( track::live() ) + " elements never destroyed" );
      if( x.sink == "print" )
      {
         out = "\"";
         for( char c : text.str() ) out += c == '\n' ? std::string( "\\n" ) : c < ' ' || c == '"' || c == '\\' ? std::string( "?" ) : std::string( 1, c );
         out += "\"";
      }
      else
      {
         out = "[";
         for( long v : got ) { if( out.size() > 1 ) out += ","; out += num( v ); }
         out += "]";
      }
      for( std::size_t i = 0; i < total; i++ ) seqs::step();
   } );
   std::cout.rdbuf( console );
   if( ! r.ok ) seqs::fail( r.what.compare( 0, 4, "hang" ) == 0 || r.what.compare( 0, 4, "dead" ) == 0 ? "hang" : r.what.compare( 0, 4, "life" ) == 0 ? "lifetime" : "memory", r.what );
   else seqs::report( out );
}
int main( int argc, char **argv ) { if( argc > 2 ) seed = atoll( argv[ 2 ] ); track::report = []( const char *x ) { sim::fault( x ); }; return( seqs::main( argc, argv, run_one ) ); }
