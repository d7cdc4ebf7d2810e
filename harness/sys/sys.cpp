/**
 * sys - builds graphs of kernels out of a description, executes them with
 * raft::map::exe() on the simulator and records what the kernels did, for
 * validation against spec/PipelineTrace.tla.
 *
 * usage:   sys <file> <seed> <schedules per program> [all]
 * file:    P <id> <kernels> <edges> <partition> <how>
 *             how: 0 one map, 1 two maps executed at the same time, 2 one after the other
 *          K <kind> <inputs> <outputs> <n> <b> <read style> <write style> <delay us> <map>   (one per kernel)
 *          E <src> <port> <dst> <port> <buffer size>                                   (one per edge)
 * output:  FAIL <program> <schedule> <kind> <detail>
 *          P <program> <json list of events>
 *          DONE <runs> <points> <switches> <threads>
 */
#include <raft>
#include "ringbuffer.tcc"
#include "fifo.hpp"
#include "split.tcc"
#include "join.tcc"
#include "partition_basic.hpp"
#include "partition_dummy.hpp"
#include "dynalloc.hpp"
#include "stdalloc.hpp"
#include "basicparallel.hpp"
#include "noparallel.hpp"
#include "simpleschedule.hpp"
#include "../sim/detsim.hpp"
#include "../fifo/types.hpp"
#include <cstdio>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using T = elem;
constexpr bool EXT = ext_alloc< T >::value;

struct knode { std::string kind; int nin, nout, n, b, rs, ws, delay, map; std::vector< int > ins, outs; };
struct kedge { int src, sp, dst, dp, cap; };
struct program { int id, part, how; std::vector< knode > k; std::vector< kedge > e; };

struct shared { int prog, sched; std::uint64_t runs, points, switches, fibers, fails; };
static shared *sh;
static void fail( const std::string &kind, const std::string &d )
{
   printf( "FAIL %d %d %s %s\n", sh->prog, sh->sched, kind.c_str(), d.c_str() );
   fflush( stdout );
   sh->fails++;
}

/** ---------------------------------------------------------- the record **/
struct quiet { quiet() { sim::no_preempt( true ); } ~quiet() { sim::no_preempt( false ); } };
static std::string evs;
static bool live_log = false;
static std::uint64_t nev;
static void ev( const std::string &s )
{
   sim::alive();
   if( ++nev > 400000 ) { nev = 0; sim::fault( "hang: goes on for ever" ); }
   if( ! live_log ) return;
   if( ! evs.empty() ) evs += ",";
   evs += s;
}
static std::string num( long v ) { return( std::to_string( v ) ); }
using vals = std::vector< std::array< long, 3 > >;
static std::string lst( const vals &v )
{
   std::string s = "[";
   for( std::size_t i = 0; i < v.size(); i++ ) { if( i ) s += ","; s += "[" + num( v[ i ][ 0 ] ) + "," + num( v[ i ][ 1 ] ) + "," + num( v[ i ][ 2 ] ) + "]"; }
   return( s + "]" );
}
static void act( int k )                              { quiet q; ev( "{\"k\":\"a\",\"n\":" + num( k + 1 ) + "}" ); }
static void ret( int k, raft::kstatus s )             { quiet q; ev( "{\"k\":\"z\",\"n\":" + num( k + 1 ) + ",\"s\":" + ( s == raft::stop ? "true" : "false" ) + "}" ); }
static void wr( int k, int e, const vals &v )         { quiet q; if( v.empty() ) return; ev( "{\"k\":\"w\",\"n\":" + num( k + 1 ) + ",\"e\":" + num( e + 1 ) + ",\"v\":" + lst( v ) + "}" ); }
static void rd( int k, int e, const vals &v )         { quiet q; if( v.empty() ) return; ev( "{\"k\":\"r\",\"n\":" + num( k + 1 ) + ",\"e\":" + num( e + 1 ) + ",\"v\":" + lst( v ) + "}" ); }
static void sc( int k, int e )                        { quiet q; ev( "{\"k\":\"s\",\"n\":" + num( k + 1 ) + ",\"e\":" + num( e + 1 ) + "}" ); }

/** a stream that reports what the library does with it **/
template < class E > struct rec_ring : public RingBuffer< E >
{
   int edge;
   rec_ring( std::size_t n, std::size_t a, int e ) : RingBuffer< E >( n, a ), edge( e )
   { quiet q; ev( "{\"k\":\"n\",\"e\":" + num( e + 1 ) + ",\"c\":" + num( (long) n ) + "}" ); }
   virtual ~rec_ring() { quiet q; ev( "{\"k\":\"d\",\"e\":" + num( edge + 1 ) + "}" ); }
   virtual void invalidate()
   {
      { quiet q; ev( "{\"k\":\"c\",\"e\":" + num( edge + 1 ) + "}" ); }
      RingBuffer< E >::invalidate();
   }
   virtual float get_frac_write_blocked()
   {
      const auto f( RingBuffer< E >::get_frac_write_blocked() );
      if( f > 0 ) { quiet q; ev( "{\"k\":\"b\",\"e\":" + num( edge + 1 ) + ",\"f\":" + num( (long)( f * 100 ) ) + "}" ); }
      return( f );
   }
   virtual void resize( const std::size_t n, const std::size_t a, volatile bool &x )
   {
      { quiet q; ev( "{\"k\":\"g\",\"e\":" + num( edge + 1 ) + ",\"c\":" + num( (long) n ) + "}" ); }
      RingBuffer< E >::resize( n, a, x );
      { quiet q; ev( "{\"k\":\"h\",\"e\":" + num( edge + 1 ) + ",\"w\":" + num( (long) n ) + ",\"c\":" + num( (long) (this)->capacity() ) + "}" ); }
   }
   static FIFO *make( std::size_t n, std::size_t a, int e ) { return( (FIFO*) new rec_ring< E >( n, a, e ) ); }
};

/** ---------------------------------------------------------- the kernels **/
struct node;
static std::map< std::pair< raft::kernel*, std::string >, int > edge_of_out;

static std::string pname( const char *p, int i ) { return( p + std::to_string( i ) ); }
template < class E > static long uid_of( const E &t ) { if constexpr( std::is_same< E, BigTracked >::value ) return( (long) t.uid ); else return( 0 ); }

struct node : public raft::kernel
{
   const knode d; const int id; int done = 0, turn = 0;
   node( const knode &k, int i ) : d( k ), id( i )
   {
      for( int p = 0; p < d.nin; p++ )  input.addPort< T >( pname( "i", p ) );
      for( int p = 0; p < d.nout; p++ ) output.addPort< T >( pname( "o", p ) );
      if( d.kind == "zip" ) sched_behav = raft::all_port;
   }
   FIFO &in( int p )  { return( input[ pname( "i", p ) ] ); }
   FIFO &out( int p ) { return( output[ pname( "o", p ) ] ); }
   using item = std::pair< long, raft::signal >;

   void put( int p, const std::vector< item > &v )
   {
      if( v.empty() ) return;
      FIFO &f( out( p ) );
      const int e = d.outs[ p ];
      vals r; for( auto &x : v ) r.push_back( { el< T >::of( x.first ), (long) x.second, 0 } );
      switch( ( EXT && d.ws == 5 ) ? 0 : d.ws )
      {
         case 1:      /** reserve, write in place, send **/
            for( std::size_t i = 0; i < v.size(); i++ )
            {
               T &t = f.allocate< T >();
               t = el< T >::mk( v[ i ].first );
               wr( id, e, { r[ i ] } );
               f.send( v[ i ].second );
            }
            break;
         case 2:      /** scoped **/
            for( std::size_t i = 0; i < v.size(); i++ )
            {
               wr( id, e, { r[ i ] } );
               auto s( f.allocate_s< T >() );
               *s = el< T >::mk( v[ i ].first );
               s.sig() = v[ i ].second;
            }
            break;
         case 3:      /** iterators: only the last may carry a signal **/
         {
            std::size_t i = 0;
            while( i < v.size() )
            {
               std::vector< T > l; l.reserve( v.size() );
               vals rr; raft::signal s = raft::none;
               do { l.push_back( el< T >::mk( v[ i ].first ) ); rr.push_back( r[ i ] ); s = v[ i++ ].second; } while( i < v.size() && s == raft::none );
               wr( id, e, rr );
               f.insert( l.begin(), l.end(), s );
            }
         }
         break;
         case 4:      /** a reservation given back first **/
            for( std::size_t i = 0; i < v.size(); i++ )
            {
               { T &t = f.allocate< T >(); t = el< T >::mk( 99 ); f.deallocate(); }
               T x( el< T >::mk( v[ i ].first ) );
               wr( id, e, { r[ i ] } );
               f.push< T >( x, v[ i ].second );
            }
            break;
         case 5:      /** one reservation for all; only the last may carry a signal **/
         {
            std::size_t i = 0;
            while( i < v.size() )
            {
               std::size_t n = 0;
               while( i + n + 1 < v.size() && v[ i + n ].second == raft::none ) n++;
               n++;
               { quiet q; ev( "{\"k\":\"q\",\"e\":" + num( e + 1 ) + ",\"c\":" + num( (long) n ) + "}" ); }
               auto l( f.allocate_range< T >( n ) );
               vals rr;
               for( std::size_t j = 0; j < n; j++ ) { l[ j ].get() = el< T >::mk( v[ i + j ].first ); rr.push_back( r[ i + j ] ); }
               wr( id, e, rr );
               f.send_range( v[ i + n - 1 ].second );
               i += n;
            }
         }
         break;
         case 6:      /** an object of its own on the heap, gone afterwards **/
            for( std::size_t i = 0; i < v.size(); i++ )
            {
               std::unique_ptr< T > x( new T( el< T >::mk( v[ i ].first ) ) );
               wr( id, e, { r[ i ] } );
               f.push< T >( *x, v[ i ].second );
            }
         break;
         default:
            for( std::size_t i = 0; i < v.size(); i++ )
            {
               T x( el< T >::mk( v[ i ].first ) );
               wr( id, e, { r[ i ] } );
               if( v[ i ].second == raft::none ) f.push< T >( x ); else f.push< T >( x, v[ i ].second );
            }
      }
   }
   static long val( const T &t ) { return( el< T >::id( t ) ); }
   /** get up to m elements there are (m = 0: one, waiting for it) **/
   std::vector< item > get( int p, int m, bool &closed )
   {
      FIFO &f( in( p ) );
      const int e = d.ins[ p ];
      std::vector< item > v; vals r;
      try
      {
         std::size_t n = 1;
         if( m > 0 ) { const std::size_t have = f.size(); n = std::min( have, (std::size_t) m ); }
         int rs = d.rs;
         if( rs == 3 && n > 0 )
         {
            std::vector< std::pair< T, raft::signal > > x( n );
            f.pop_range< T >( x, n );
            for( auto &y : x ) { v.emplace_back( val( y.first ), y.second ); r.push_back( { val( y.first ), (long) y.second, 0 } ); }
            rd( id, e, r );
            return( v );
         }
         if( rs == 4 && n > 0 )
         {
            {
               auto x( f.peek_range< T >( n ) );
               for( std::size_t i = 0; i < n; i++ ) { auto y( x[ i ] ); v.emplace_back( val( y.ele ), (raft::signal) y.sig ); r.push_back( { val( y.ele ), (long) (raft::signal) y.sig, 0 } ); }
               rd( id, e, r );
               f.recycle( n );
            }
            return( v );
         }
         for( std::size_t i = 0; i < n; i++ )
         {
            raft::signal s = raft::none;
            long w = 0, u = 0;
            if( rs == 1 ) { auto x( f.pop_s< T >() ); w = val( *x ); s = x.sig(); u = uid_of( *x ); v.emplace_back( w, s ); rd( id, e, { { w, (long) s, u } } ); }
            else if( rs == 2 ) { T &x( f.peek< T >( &s ) ); w = val( x ); u = uid_of( x ); v.emplace_back( w, s ); rd( id, e, { { w, (long) s, u } } ); f.unpeek(); f.recycle(); }
            else if( rs == 5 ) { T x; f.peek< T >(); f.unpeek(); f.pop< T >( x, &s ); w = val( x ); v.emplace_back( w, s ); rd( id, e, { { w, (long) s, 0 } } ); }
            else { T x; f.pop< T >( x, &s ); w = val( x ); v.emplace_back( w, s ); rd( id, e, { { w, (long) s, 0 } } ); }
         }
      }
      catch( ClosedPortAccessException & ) { sc( id, e ); closed = true; }
      return( v );
   }
   /** hand the object on; n says how: 0 recycle at once, 1 recycle in the
    *  next activation, 2 pop
    *  what is not handed on, 3 hand on and recycle in the
    *  activation after the one that looked first; drop: only every other **/
   bool pending = false, looked = false;
   void forward( int p )
   {
      FIFO &f( in( p ) );
      const int e = d.ins[ p ];
      if( pending ) { drop( e ); f.recycle(); pending = false; }
      for( int i = 0; i < d.b && f.size() > 0; i++ )
      {
         raft::signal s;
         T &x( f.peek< T >( &s ) );
         if( d.n == 3 && ! looked ) { looked = true; f.unpeek(); return; }
         looked = false;
         const long w = val( x ), u = uid_of( x );
         look( e, { { w, (long) s, u } } );
         const bool on = d.kind == "fwd" || ++turn % 2 == 0;
         if( on )
         {
            wr( id, d.outs[ 0 ], { { w, (long) s, u } } );
            out( 0 ).push( x, s );
         }
         if( d.n == 2 && ! on ) { T y; drop( e ); f.unpeek(); f.pop< T >( y ); }
         else
         {
            f.unpeek();
            if( d.n == 1 ) { pending = true; return; }
            drop( e ); f.recycle();
         }
      }
   }
   void look( int e, const vals &v ) { quiet q; ev( "{\"k\":\"p\",\"n\":" + num( id + 1 ) + ",\"e\":" + num( e + 1 ) + ",\"v\":" + lst( v ) + "}" ); }
   void drop( int e )                { quiet q; ev( "{\"k\":\"y\",\"n\":" + num( id + 1 ) + ",\"e\":" + num( e + 1 ) + "}" ); }
   void pause() { if( d.delay ) std::this_thread::sleep_for( std::chrono::microseconds( d.delay ) ); }

   virtual raft::kstatus run()
   {
      act( id );
      pause();
      raft::kstatus st( raft::proceed );
      bool closed = false;
      if( d.kind == "src" )
      {
         for( int j = 0; j < d.b && done < d.n; j++ )
         {
            done++;
            /** a signal now and then, and always with the last **/
            const raft::signal s = done == d.n ? raft::eof : ( done % 3 == 0 ? (raft::signal)( 5000 + done ) : raft::none );
            for( int p = 0; p < d.nout; p++ ) put( p, { { ( id + 1 ) * 1000 + done, s } } );
         }
         if( done >= d.n ) st = raft::stop;
      }
      else if( d.kind == "late" )          /** says stop one activation after the last element **/
      {
         if( done >= d.n ) st = raft::stop;
         else { std::vector< item > v; for( int j = 0; j < d.b && done < d.n; j++ ) { done++; v.emplace_back( ( id + 1 ) * 1000 + done, done % 2 ? raft::none : (raft::signal)( 6000 + done ) ); } for( int p = 0; p < d.nout; p++ ) put( p, v ); }
      }
      else if( d.kind == "map" )
      {
         for( int p = 0; p < d.nin; p++ )
         {
            auto v( get( p, d.b, closed ) );
            for( int o = 0; o < d.nout; o++ ) put( o, v );
         }
      }
      else if( d.kind == "fwd" || d.kind == "drop" ) forward( 0 );
      else if( d.kind == "wait" )          /** reads one more than it was activated for: waits, may find it closed **/
      {
         for( int j = 0; j < 2 && ! closed; j++ ) { auto v( get( 0, 0, closed ) ); for( int o = 0; o < d.nout; o++ ) put( o, v ); }
         if( closed ) st = raft::stop;
      }
      else if( d.kind == "fan" )
      {
         auto v( get( 0, d.b, closed ) );
         for( auto &x : v ) put( turn++ % d.nout, { x } );
      }
      else if( d.kind == "zip" )
      {
         std::vector< item > first;
         for( int p = 0; p < d.nin; p++ ) { auto v( get( p, 1, closed ) ); if( p == 0 ) first = v; if( v.size() != 1 ) { quiet q; ev( "{\"k\":\"empty\"}" ); } }
         for( int o = 0; o < d.nout; o++ ) put( o, first );
      }
      else if( d.kind == "loop" )          /** everything new goes round once, then on **/
      {
         for( int p = 1; p >= 0; p-- ) { auto v( get( p, d.b, closed ) ); put( 1 - p, v ); if( p == 1 ) done += v.size(); }
         if( done >= d.n ) st = raft::stop;
      }
      else if( d.kind == "cut" )
      {
         for( int p = 0; p < d.nin && done < d.n; p++ )
         {
            auto v( get( p, 1, closed ) );
            done += v.size();
            for( int o = 0; o < d.nout; o++ ) put( o, v );
         }
         if( done >= d.n ) st = raft::stop;
      }
      else if( d.kind == "hold" )          /** slow until its stream has grown to n **/
      {
         const bool slow = in( 0 ).capacity() < (std::size_t) d.n && ! in( 0 ).is_invalid();
         if( slow ) std::this_thread::sleep_for( std::chrono::milliseconds( 4 ) );
         auto v( get( 0, slow ? 1 : d.b, closed ) );
         for( int o = 0; o < d.nout; o++ ) put( o, v );
      }
      ret( id, st );
      return( st );
   }
};

template < class B > struct relay : public B
{
   int id;
   relay( int n, int i ) : B( n ), id( i ) {}
   relay( int i ) : B(), id( i ) {}
   virtual raft::kstatus run() { act( id ); const auto s( B::run() ); ret( id, s ); return( s ); }
};

template < class A > struct rec_alloc : public A
{
   rec_alloc( raft::map &m, volatile bool &x ) : A( m, x ) {}
   virtual void allocate( PortInfo &a, PortInfo &b, void *data )
   {
      {
         quiet q;
         const auto it( edge_of_out.find( { a.my_kernel, a.my_name } ) );
         const int e = it == edge_of_out.end() ? -1 : it->second;
         auto &slot( ( *a.const_map[ Type::Heap ] )[ false ] );
         slot = [ e ]( std::size_t n, std::size_t al, void *p ) -> FIFO* { return( p ? RingBuffer< T >::make_new_fifo( n, al, p ) : rec_ring< T >::make( n, al, e ) ); };
      }
      A::allocate( a, b, data );
   }
};

static std::string port_of( const program &p, int k, bool out, int i )
{
   const auto &kd( p.k[ k ].kind );
   if( kd == "split" || kd == "join" ) return( std::to_string( i ) );
   return( pname( out ? "o" : "i", i ) );
}

static void run_one( const program &p, int pi, int si, std::uint64_t seed, std::set< std::size_t > &seen, bool all )
{
   track::reset();
   sh->prog = pi; sh->sched = si;
   sim::config c;
   c.seed = seed * 7919 + pi * 101 + si;
   c.policy = ( si % 3 == 2 ) ? sim::PCT : sim::RANDOM;
   static const int den[] = { 6, 25, 100, 3 };
   c.denom = den[ ( si / 3 ) % 4 ];
   c.horizon = 20000; c.depth = 3 + si % 9; c.quantum = 600; c.tso = ( pi + si ) & 1;
   c.max_steps = 30000000;
   track::pool_start( ( pi + si / 2 ) % 2 == 1, si & 1 ? nullptr : +[]() { return( (int) sim::self() ); } );
   evs.clear(); nev = 0; edge_of_out.clear();
   bool failed = false;
   int at_exe = 0;
   const auto r = sim::run( c, [&]()
   {
      std::vector< std::unique_ptr< raft::kernel > > ks;
      {
      quiet *nq = new quiet;
      for( std::size_t i = 0; i < p.k.size(); i++ )
      {
         const auto &d( p.k[ i ] );
         if( pi % 4 ) sim::block( 65536 );
         if( d.kind == "split" ) { ks.emplace_back( d.nout == 1 ? new relay< raft::split< T > >( i ) : new relay< raft::split< T > >( d.nout, i ) ); continue; }
         if( d.kind == "join" )  { ks.emplace_back( d.nin == 1 ? new relay< raft::join< T > >( i ) : new relay< raft::join< T > >( d.nin, i ) ); continue; }
         ks.emplace_back( new node( d, i ) );
      }
      delete nq;
      }
      {
      const int nm = p.how == 0 ? 1 : 2;
      std::vector< std::unique_ptr< raft::map > > ms;
      { quiet q; for( int i = 0; i < nm; i++ ) ms.emplace_back( new raft::map() ); }
      live_log = true;
      for( std::size_t i = 0; i < p.e.size(); i++ )
      {
         const auto &e( p.e[ i ] );
         const auto sp( port_of( p, e.src, true, e.sp ) ), dp( port_of( p, e.dst, false, e.dp ) );
         edge_of_out[ { ks[ e.src ].get(), sp } ] = i;
         ms[ p.k[ e.src ].map ]->link( ks[ e.src ].get(), sp, ks[ e.dst ].get(), dp, e.cap );
      }
      const auto go( [&]( const int i )
      {
         auto &m( *ms[ i ] );
         switch( ( p.part + i ) % 5 )
         {
            case 1:  m.exe< partition_basic, simple_schedule, rec_alloc< dynalloc >, basic_parallel >(); break;
            case 2:  m.exe< partition_dummy, simple_schedule, rec_alloc< dynalloc >, no_parallel >();    break;
            case 3:  m.exe< partition_dummy, simple_schedule, rec_alloc< stdalloc >, no_parallel >();    break;
            case 4:  m.exe< partition_basic, simple_schedule, rec_alloc< stdalloc >, basic_parallel >(); break;
            default: m.exe< partition_dummy, simple_schedule, rec_alloc< dynalloc >, basic_parallel >();
         }
         { quiet q; ev( "{\"k\":\"x\",\"m\":" + num( i + 1 ) + "}" ); }
      } );
      if( p.how == 1 )
      {
         std::thread other( [&]() { go( 1 ); } );
         go( 0 );
         other.join();
      }
      else for( int i = 0; i < nm; i++ ) go( i );
      live_log = false;
      for( int f = 1; f < 400; f++ ) if( sim::exists( f ) && ! sim::finished( f ) ) at_exe++;
      }
      ks.clear();
   } );
   live_log = false;
   sh->runs++; sh->points += r.steps; sh->switches += r.switches; sh->fibers += r.fibers;
   if( ! r.ok )
   {
      failed = true;
      const bool hang = r.what.compare( 0, 4, "hang" ) == 0 || r.what.compare( 0, 4, "dead" ) == 0;
      fail( hang ? "hang" : r.what.compare( 0, 4, "life" ) == 0 ? "lifetime" : "memory",
            r.what + " after [" + ( evs.size() > 2500 ? "..." + evs.substr( evs.size() - 2500 ) : evs ) + "]" );
      return;
   }
   if( at_exe ) { failed = true; fail( "alive", num( at_exe ) + " threads still running when exe() returned" ); }
   if( el< T >::tracked && track::live() != 0 )
   {
      /** elements that nobody consumed stay in the streams: only count when all was consumed **/
      bool cut = false; for( auto &k : p.k ) if( k.kind == "cut" || k.kind == "zip" ) cut = true;
      if( ! cut ) { failed = true; fail( "live", num( track::live() ) + " elements never destroyed" ); }
   }
   if( failed ) return;
   if( all || seen.insert( std::hash< std::string >()( evs ) ).second )
      printf( "P %d %d [%s]\n", pi, si, evs.c_str() );
}

int main( int argc, char **argv )
{
   if( argc < 4 ) return( 2 );
   std::ifstream is( argv[ 1 ] );
   const std::uint64_t seed = atoll( argv[ 2 ] );
   const int scheds = atoi( argv[ 3 ] );
   const bool all = argc > 4;
   std::vector< program > ps;
   std::string w;
   while( is >> w )
   {
      if( w == "P" )
      {
         program p; int nk, ne;
         is >> p.id >> nk >> ne >> p.part >> p.how;
         for( int i = 0; i < nk; i++ ) { knode k; is >> w >> k.kind >> k.nin >> k.nout >> k.n >> k.b >> k.rs >> k.ws >> k.delay >> k.map; k.ins.assign( k.nin, -1 ); k.outs.assign( k.nout, -1 ); p.k.push_back( k ); }
         for( int i = 0; i < ne; i++ ) { kedge e; is >> w >> e.src >> e.sp >> e.dst >> e.dp >> e.cap; p.e.push_back( e ); p.k[ e.src ].outs[ e.sp ] = i; p.k[ e.dst ].ins[ e.dp ] = i; }
         ps.push_back( p );
      }
   }
   sh = (shared*) mmap( nullptr, sizeof( shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
   int done = 0;
   const int last = (int) ps.size();
   while( done < last && sh->fails < 5 )
   {
      const int to = std::min( last, done + 4 );
      sh->prog = done;
      fflush( stdout );
      const pid_t pid = fork();
      if( pid == 0 )
      {
         sim::install_crash_handlers();
         sim::on_fatal = []( const std::string &x ) { fail( "crash", x + " after [" + ( evs.size() > 1500 ? "..." + evs.substr( evs.size() - 1500 ) : evs ) + "]" ); };
         track::report = []( const char *x ) { sim::fault( x ); };
         for( int i = done; i < to; i++ )
         {
            std::set< std::size_t > seen;
            alarm( 120 );
            for( int s = 0; s < scheds && sh->fails < 5; s++ ) run_one( ps[ i ], i, s, seed, seen, all );
         }
         fflush( stdout );
         _exit( 0 );
      }
      int st = 0; waitpid( pid, &st, 0 );
      if( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) done = to;
      else
      {
         if( ! ( WIFEXITED( st ) && WEXITSTATUS( st ) == 70 ) ) fail( "crash", "process ended abnormally (" + std::to_string( st ) + ")" );
         done = sh->prog + 1;
      }
   }
   printf( "DONE %llu %llu %llu %llu\n", (unsigned long long) sh->runs, (unsigned long long) sh->points, (unsigned long long) sh->switches, (unsigned long long) sh->fibers );
   return( 0 );
}
