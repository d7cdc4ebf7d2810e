/**
 * topo - builds graphs with the real stream operators and link(), executes
 * and exports them, and reports everything observable, for
 * spec/TopologyTrace.tla and spec/TraverseTrace.tla.
 *
 * usage:   topo <file> <seed>
 * file:    P <id> <kernels> <statements> <exe: 0|1> <dot: 0|1> <traversals>
 *          K <made> <clone> <nin> (<name> <type>)* <nout> (<name> <type>)*   one per kernel
 *          S L <a> <port> <b> <port> <ooo> <cap>        ("-" for no name)
 *          S X <postfix: k | k:name | k:name:name | >> | >o | <= | >=> .
 *          T <set|vec|vertex|strict|strictvec> <n> <start kernels>
 * output:  R <id> <json>
 *          FAIL <id> <kind> <detail>
 *          DONE <programs> <points> <switches> <threads>
 */
#include <raft>
#include "ringbuffer.tcc"
#include "fifo.hpp"
#include "graphtools.hpp"
#include "makedot.hpp"
#include "portexception.hpp"
#include "mapexception.hpp"
#include "partition_dummy.hpp"
#include "../sim/detsim.hpp"
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using port = std::pair< std::string, char >;
struct kdesc { bool made, clone; std::vector< port > ins, outs; };
struct stmt { char t; int a, b, cap; bool ooo; std::string ap, bp; std::vector< std::string > x; };
struct trav { std::string how; std::vector< int > start; };
struct program { int id; bool exe, dot; std::vector< kdesc > k; std::vector< stmt > s; std::vector< trav > t; };

static std::string argv0;
struct shared { int prog; std::uint64_t runs, points, switches, fibers, fails; };
static shared *sh;
static void fail( const std::string &kind, const std::string &d )
{
   printf( "FAIL %d %s %s\n", sh->prog, kind.c_str(), d.c_str() );
   fflush( stdout );
   sh->fails++;
}
struct quiet { quiet() { sim::no_preempt( true ); } ~quiet() { sim::no_preempt( false ); } };
static std::string num( long v ) { return( std::to_string( v ) ); }
static std::string str( const std::string &s ) { return( "\"" + s + "\"" ); }
template < class V, class F > static std::string lst( const V &v, F f )
{
   std::string s = "[";
   bool first = true;
   for( auto &x : v ) { if( ! first ) s += ","; first = false; s += f( x ); }
   return( s + "]" );
}

/** ------------------------------------------------------------ objects **/
struct pnode;
static int next_uid, acts;
static bool in_map;                       /** the map exists **/
static bool dying;                        /** the map is being destroyed **/
static std::vector< std::pair< int, int > > klass;
static std::vector< std::pair< int, long > > ids;
static std::vector< int > early, late, own;
static std::map< const raft::kernel*, int > uid_of;
struct fact { int u; std::string p; int v; std::string q; bool ooo; long cap = 0; };
static std::vector< fact > edges;
static std::map< int, std::map< int, std::string > > outname;   /** uid -> token index -> port **/

struct pnode : public raft::kernel
{
   const kdesc *d; int k, uid; bool ran = false;
   pnode( const kdesc &dd, int kk ) : d( &dd ), k( kk ), uid( kk ) { init(); }
   pnode( const pnode &o ) : raft::kernel(), d( o.d ), k( o.k ), uid( ++next_uid ) { own.push_back( uid ); init(); }
   virtual ~pnode()
   {
      if( dying ) late.push_back( uid );
      else if( in_map ) early.push_back( uid );
      uid_of.erase( this );
   }
   template < class P > static void add( P &p, const port &x )
   {
      switch( x.second )
      {
         case 'i': p.template addPort< int >( x.first ); break;
         case 'l': p.template addPort< long >( x.first ); break;
         case 'u': p.template addPort< unsigned >( x.first ); break;
         default:  p.template addPort< double >( x.first );
      }
   }
   void init()
   {
      klass.emplace_back( uid, k );
      ids.emplace_back( uid, (long) get_id() );
      uid_of[ this ] = uid;
      /** declared in an order that is not the order of the names **/
      for( std::size_t i = d->ins.size(); i > 0; i-- )  add( input, d->ins[ i - 1 ] );
      for( std::size_t i = d->outs.size(); i > 0; i-- ) add( output, d->outs[ i - 1 ] );
      for( std::size_t i = 0; i < d->outs.size(); i++ ) outname[ uid ][ i ] = d->outs[ i ].first;
   }
   template < class E > static void put( FIFO &f, long t ) { E e = (E) t; f.push< E >( e ); }
   template < class E > static long get( FIFO &f ) { E e; f.pop< E >( e ); return( (long) e ); }
   virtual raft::kstatus run()
   {
      { quiet q; acts++; }
      if( ran ) { fail( "again", "kernel activated again after stop" ); return( raft::stop ); }
      ran = true;
      for( std::size_t i = 0; i < d->outs.size(); i++ )
      {
         const long t = uid * 16 + i;
         FIFO &f( output[ d->outs[ i ].first ] );
         switch( d->outs[ i ].second ) { case 'i': put< int >( f, t ); break; case 'l': put< long >( f, t ); break; case 'u': put< unsigned >( f, t ); break; default: put< double >( f, t ); }
      }
      for( std::size_t i = 0; i < d->ins.size(); i++ )
      {
         FIFO &f( input[ d->ins[ i ].first ] );
         long t = 0;
         const long c = (long) f.capacity();
         switch( d->ins[ i ].second ) { case 'i': t = get< int >( f ); break; case 'l': t = get< long >( f ); break; case 'u': t = get< unsigned >( f ); break; default: t = get< double >( f ); }
         quiet q;
         edges.push_back( { (int)( t / 16 ), outname[ t / 16 ][ t % 16 ], uid, d->ins[ i ].first, false, c } );
      }
      return( raft::stop );
   }
};
struct cnode : public pnode
{
   cnode( const kdesc &d, int k ) : pnode( d, k ) {}
   cnode( const cnode &o ) : pnode( o ) {}
   CLONE();
};
static char arena_for_placed[ 256 ];
struct placed : public raft::kernel
{
   placed() : raft::kernel( arena_for_placed, sizeof( arena_for_placed ) ) {}
   virtual raft::kstatus run() { return( raft::stop ); }
};

static std::string what_of( std::exception_ptr p )
{
   try { std::rethrow_exception( p ); }
   catch( PortTypeMismatchException & )        { return( "PortTypeMismatchException" ); }
   catch( PortNotFoundException & )            { return( "PortNotFoundException" ); }
   catch( PortDoubleInitializeException & )    { return( "PortDoubleInitializeException" ); }
   catch( AmbiguousPortAssignmentException & ) { return( "AmbiguousPortAssignmentException" ); }
   catch( PortUnconnectedException & )         { return( "PortUnconnectedException" ); }
   catch( CloneNotImplementedException & )     { return( "CloneNotImplementedException" ); }
   catch( InvalidTopologyOperationException & ){ return( "InvalidTopologyOperationException" ); }
   catch( std::exception &e )                  { return( "std::exception" ); }
   catch( ... )                                { return( "unknown" ); }
}

/** -------------------------------------------------------- expressions **/
struct value { raft::kernel *k = nullptr; std::shared_ptr< raft::kernel_wrapper > w; kpair *p = nullptr; };
struct builder
{
   std::vector< raft::kernel* > ks;
   const program &p;
   raft::kernel_wrapper wrap( int k )
   {
      own.push_back( k );
      if( p.k[ k - 1 ].clone ) return( raft::kernel::make< cnode >( p.k[ k - 1 ], k ) );
      return( raft::kernel::make< pnode >( p.k[ k - 1 ], k ) );
   }
   value item( const std::string &s )
   {
      std::vector< std::string > w;
      std::stringstream ss( s );
      std::string x;
      while( std::getline( ss, x, ':' ) ) w.push_back( x );
      const int k = atoi( w[ 0 ].c_str() );
      value v;
      if( p.k[ k - 1 ].made ) { v.w = std::make_shared< raft::kernel_wrapper >( wrap( k ) ); return( v ); }
      v.k = ks[ k - 1 ];
      for( std::size_t i = 1; i < w.size(); i++ ) v.k = &( *v.k )[ w[ i ] ];
      return( v );
   }
   static kpair *apply( const std::string &op, value &a, value &b )
   {
      if( op == ">>" )
      {
         if( a.p ) return( b.w ? &( *a.p >> std::move( *b.w ) ) : &( *a.p >> *b.k ) );
         if( a.k ) return( b.w ? &( *a.k >> std::move( *b.w ) ) : &( *a.k >> *b.k ) );
         return( &( std::move( *a.w ) >> std::move( *b.w ) ) );
      }
      if( op == ">o" )
      {
         if( a.p ) return( b.w ? &( *a.p >> raft::order::out >> std::move( *b.w ) ) : &( *a.p >> raft::order::out >> *b.k ) );
         return( b.w ? &( *a.k >> raft::order::out >> std::move( *b.w ) ) : &( *a.k >> raft::order::out >> *b.k ) );
      }
      if( op == "<=" )
      {
         if( a.k ) return( b.p ? &( *a.k <= *b.p ) : &( *a.k <= *b.k ) );
         return( b.p ? &( std::move( *a.w ) <= *b.p ) : &( std::move( *a.w ) <= std::move( *b.w ) ) );
      }
      if( a.p ) return( b.p ? &( *a.p >= *b.p ) : b.w ? &( *a.p >= std::move( *b.w ) ) : &( *a.p >= *b.k ) );
      if( a.k ) return( b.p ? &( *a.k >= *b.p ) : &( *a.k >= *b.k ) );
      return( b.p ? &( std::move( *a.w ) >= *b.p ) : &( std::move( *a.w ) >= std::move( *b.w ) ) );
   }
   kpair *eval( const std::vector< std::string > &x )
   {
      std::vector< value > st;
      for( auto &t : x )
      {
         if( isdigit( t[ 0 ] ) ) { st.push_back( item( t ) ); continue; }
         value b( st.back() ); st.pop_back();
         value a( st.back() ); st.pop_back();
         value r; r.p = apply( t, a, b );
         st.push_back( r );
      }
      return( st.back().p );
   }
};

/** what the exported description says **/
static void parse_dot( const std::string &d, std::vector< int > &vs, std::vector< fact > &es )
{
   std::map< long, int > of;
   for( auto &x : ids ) of[ x.second ] = x.first;
   auto uid = [ & ]( long id ) { auto it = of.find( id ); return( it == of.end() ? -1 : it->second ); };
   /** statements are "<id>[...]" and "<id> -> <id>[label="p to q (..)\nOoO=..."]" **/
   std::size_t i = d.find( '{' );
   if( i == std::string::npos ) return;
   i++;
   while( i < d.size() )
   {
      while( i < d.size() && isspace( d[ i ] ) ) i++;
      if( i >= d.size() || d[ i ] == '}' ) break;
      if( ! isdigit( d[ i ] ) ) { while( i < d.size() && d[ i ] != ';' ) i++; i++; continue; }
      char *e; const long a = strtol( d.c_str() + i, &e, 10 ); i = e - d.c_str();
      while( isspace( d[ i ] ) ) i++;
      long b = -1;
      const bool edge = d.compare( i, 2, "->" ) == 0;
      if( edge ) { b = strtol( d.c_str() + i + 2, &e, 10 ); i = e - d.c_str(); }
      while( isspace( d[ i ] ) ) i++;
      std::string body;
      if( d[ i ] == '[' ) { bool q = false; for( i++; i < d.size() && ( q || d[ i ] != ']' ); i++ ) { if( d[ i ] == '"' ) q = ! q; body += d[ i ]; } i++; }
      while( i < d.size() && d[ i ] != ';' && ! isspace( d[ i ] ) ) i++;
      if( i < d.size() && d[ i ] == ';' ) i++;
      if( ! edge ) { vs.push_back( uid( a ) ); continue; }
      auto l = body.find( '"' );
      std::stringstream ss( body.substr( l == std::string::npos ? 0 : l + 1 ) );
      std::string p, to, q;
      ss >> p >> to >> q;
      es.push_back( { uid( a ), p, uid( b ), q, body.find( "OoO=true" ) != std::string::npos } );
   }
}

static void run_one( const program &p, std::uint64_t seed )
{
   sh->prog = p.id;
   sim::config c;
   c.seed = seed * 7919 + p.id;
   c.policy = sim::RANDOM; c.denom = 60; c.max_steps = 20000000;
   next_uid = 100; acts = 0; in_map = dying = false;
   klass.clear(); ids.clear(); early.clear(); late.clear(); own.clear(); uid_of.clear(); edges.clear(); outname.clear();
   std::string res, exe = "none", travs;
   std::vector< int > dotv; std::vector< fact > dote;
   const auto r = sim::run( c, [&]()
   {
      std::vector< std::unique_ptr< raft::kernel > > ks;
      builder b{ {}, p };
      {
         quiet q;
         for( std::size_t i = 0; i < p.k.size(); i++ )
         {
            if( i == p.k.size() / 2 ) { ks.emplace_back( new placed() ); ids.emplace_back( 90, (long) ks.back()->get_id() ); }
            if( p.k[ i ].made ) { b.ks.push_back( nullptr ); continue; }
            if( p.k[ i ].clone ) ks.emplace_back( new cnode( p.k[ i ], i + 1 ) ); else ks.emplace_back( new pnode( p.k[ i ], i + 1 ) );
            b.ks.push_back( ks.back().get() );
         }
      }
      {
         auto m( std::make_unique< raft::map >() );
         in_map = true;
         bool ok = true;
         {
         quiet q;
         for( auto &s : p.s )
         {
            std::string rr = "ok", src = "[]", dst = "[]";
            try
            {
               kernel_pair_t kp;
               if( s.t == 'T' )
               {
                  /** what the library does with it is not quiet **/
                  sim::no_preempt( false );
                  try { m->exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); }
                  catch( ... ) { sim::no_preempt( true ); rr = acts ? "activated" : what_of( std::current_exception() ); }
                  if( rr == "ok" ) sim::no_preempt( true );
               }
               else if( s.t == 'L' )
                  kp = s.ooo ? m->link< raft::order::out >( b.ks[ s.a - 1 ], s.ap, b.ks[ s.b - 1 ], s.bp, s.cap ) : m->link( b.ks[ s.a - 1 ], s.ap, b.ks[ s.b - 1 ], s.bp, s.cap );
               else
               {
                  /** kernels of an expression the map has never seen are not the map's **/
                  const std::size_t n = own.size();
                  kpair *x = nullptr;
                  try { x = b.eval( s.x ); }
                  catch( ... )
                  {
                     for( std::size_t i = n; i < own.size(); i++ )
                        early.erase( std::remove( early.begin(), early.end(), own[ i ] ), early.end() );
                     own.resize( n );
                     throw;
                  }
                  kp = ( *m += *x );
               }
               std::vector< int > u, v;
               auto x( kp.getSrc() ); for( auto i = x.first; i != x.second; ++i ) { auto f( uid_of.find( &i->get() ) ); u.push_back( f == uid_of.end() ? -1 : f->second ); }
               auto y( kp.getDst() ); for( auto i = y.first; i != y.second; ++i ) { auto f( uid_of.find( &i->get() ) ); v.push_back( f == uid_of.end() ? -1 : f->second ); }
               if( kp.getSrcSize() != u.size() || kp.getDstSize() != v.size() ) { u.push_back( -2 ); }
               src = lst( u, num ); dst = lst( v, num );
            }
            catch( ... ) { rr = what_of( std::current_exception() ); ok = s.t != 'X'; }
            if( ! res.empty() ) res += ",";
            res += "{\"r\":" + str( rr ) + ",\"src\":" + src + ",\"dst\":" + dst + "}";
            if( ! ok ) break;
         }
         if( ok && p.dot )
         {
            std::stringstream os;
            raft::make_dot::run( os, *m );
            parse_dot( os.str(), dotv, dote );
         }
         for( auto &t : p.t )
         {
            std::set< raft::kernel* > set; std::vector< raft::kernel* > vec;
            for( auto k : t.start ) { set.insert( b.ks[ k - 1 ] ); vec.push_back( b.ks[ k - 1 ] ); }
            std::string cb;
            edge_func ef = [ & ]( PortInfo &x, PortInfo &y, void *data )
            {
               if( data != &cb ) { fail( "data", "the pointer handed to the callback is not the caller's" ); return; }
               if( ! cb.empty() ) cb += ",";
               cb += "[" + num( uid_of.count( x.my_kernel ) ? uid_of[ x.my_kernel ] : -1 ) + "," + str( x.my_name ) + "," +
                     num( uid_of.count( y.my_kernel ) ? uid_of[ y.my_kernel ] : -1 ) + "," + str( y.my_name ) + "]";
            };
            vertex_func vf = [ & ]( raft::kernel *k, void *data )
            {
               if( data != &cb ) { fail( "data", "the pointer handed to the callback is not the caller's" ); return; }
               if( ! cb.empty() ) cb += ",";
               cb += num( uid_of.count( k ) ? uid_of[ k ] : -1 );
            };
            bool refused = false;
            try
            {
               if( t.how == "set" ) GraphTools::BFS( set, ef, &cb );
               else if( t.how == "vec" ) GraphTools::BFS( vec, ef, &cb );
               else if( t.how == "strict" ) GraphTools::BFS( set, ef, &cb, true );
               else if( t.how == "strictvec" ) GraphTools::BFS( vec, ef, &cb, true );
               else GraphTools::BFS( set, vf, &cb );
            }
            catch( PortException & ) { refused = true; }
            if( ! travs.empty() ) travs += ",";
            travs += "{\"how\":" + str( t.how ) + ",\"start\":" + lst( t.start, num ) + ",\"cb\":[" + cb + "],\"refused\":" + ( refused ? "true" : "false" ) + "}";
         }
         }
         if( ok && p.exe )
         {
            const bool file( p.dot && p.id % 4 == 0 );
            const std::string fn( std::string( argv0 ) + "." + num( getpid() ) + ".dot" );
            if( file ) { quiet q; setenv( "GEN_DOT", fn.c_str(), 1 ); }
            try { m->exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); exe = "ok"; }
            catch( ... ) { exe = what_of( std::current_exception() ); }
            if( file )
            {
               /** the file written on the way instead **/
               quiet q;
               unsetenv( "GEN_DOT" );
               if( exe == "ok" )
               {
                  std::ifstream is( fn );
                  std::stringstream os;
                  os << is.rdbuf();
                  dotv.clear(); dote.clear();
                  parse_dot( os.str(), dotv, dote );
               }
               unlink( fn.c_str() );
            }
         }
         quiet q;
         dying = true;
         m.reset();
         dying = in_map = false;
      }
      quiet q;
      ks.clear();
   } );
   sh->runs++; sh->points += r.steps; sh->switches += r.switches; sh->fibers += r.fibers;
   if( ! r.ok ) { fail( "run", r.what ); return; }
   auto f4 = []( const fact &e ) { return( "[" + num( e.u ) + "," + str( e.p ) + "," + num( e.v ) + "," + str( e.q ) + "]" ); };
   auto fc = []( const fact &e ) { return( "[" + num( e.u ) + "," + str( e.p ) + "," + num( e.v ) + "," + str( e.q ) + "," + num( e.cap ) + "]" ); };
   auto f5 = []( const fact &e ) { return( "[" + num( e.u ) + "," + str( e.p ) + "," + num( e.v ) + "," + str( e.q ) + "," + ( e.ooo ? "true" : "false" ) + "]" ); };
   auto pr = []( const std::pair< int, int > &x ) { return( "[" + num( x.first ) + "," + num( x.second ) + "]" ); };
   auto pl = []( const std::pair< int, long > &x ) { return( "[" + num( x.first ) + "," + num( x.second ) + "]" ); };
   printf( "R %d {\"stmts\":[%s],\"exe\":\"%s\",\"acts\":%d,\"edges\":%s,\"caps\":%s,\"dotv\":%s,\"dote\":%s,\"class\":%s,\"ids\":%s,\"early\":%s,\"late\":%s,\"own\":%s,\"trav\":[%s]}\n",
           p.id, res.c_str(), exe.c_str(), acts, lst( edges, f4 ).c_str(), lst( edges, fc ).c_str(), lst( dotv, num ).c_str(), lst( dote, f5 ).c_str(), lst( klass, pr ).c_str(),
           lst( ids, pl ).c_str(), lst( early, num ).c_str(), lst( late, num ).c_str(), lst( own, num ).c_str(), travs.c_str() );
}

int main( int argc, char **argv )
{
   if( argc < 3 ) return( 2 );
   std::ifstream is( argv[ 1 ] );
   argv0 = argv[ 1 ];
   const std::uint64_t seed = atoll( argv[ 2 ] );
   std::vector< program > ps;
   std::string w;
   auto nm = []( const std::string &s ) { return( s == "-" ? std::string() : s ); };
   while( is >> w )
   {
      if( w != "P" ) continue;
      program p; int nk, ns, nt, e, dt;
      is >> p.id >> nk >> ns >> e >> dt >> nt; p.exe = e; p.dot = dt;
      for( int i = 0; i < nk; i++ )
      {
         kdesc k; int n; std::string t;
         is >> w >> k.made >> k.clone >> n;
         for( int j = 0; j < n; j++ ) { port x; is >> x.first >> t; x.second = t[ 0 ]; k.ins.push_back( x ); }
         is >> n;
         for( int j = 0; j < n; j++ ) { port x; is >> x.first >> t; x.second = t[ 0 ]; k.outs.push_back( x ); }
         p.k.push_back( k );
      }
      for( int i = 0; i < ns; i++ )
      {
         stmt s; is >> w >> w; s.t = w[ 0 ];
         if( s.t == 'L' ) { is >> s.a >> s.ap >> s.b >> s.bp >> s.ooo >> s.cap; s.ap = nm( s.ap ); s.bp = nm( s.bp ); }
         else if( s.t == 'X' ) while( is >> w && w != "." ) s.x.push_back( w );
         p.s.push_back( s );
      }
      for( int i = 0; i < nt; i++ ) { trav t; int n; is >> w >> t.how >> n; for( int j = 0; j < n; j++ ) { int k; is >> k; t.start.push_back( k ); } p.t.push_back( t ); }
      ps.push_back( p );
   }
   sh = (shared*) mmap( nullptr, sizeof( shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
   int done = 0;
   const int last = (int) ps.size();
   int next = 0;
   (void) next;
   while( done < last && sh->fails < 20 )
   {
      const int to = std::min( last, done + 200 );
      sh->prog = -1;
      fflush( stdout );
      const pid_t pid = fork();
      if( pid == 0 )
      {
         sim::install_crash_handlers();
         sim::on_fatal = []( const std::string &x ) { fail( "crash", x ); };
         for( int i = done; i < to && sh->fails < 20; i++ ) { alarm( 60 ); run_one( ps[ i ], seed ); fflush( stdout ); }
         fflush( stdout );
         _exit( 0 );
      }
      int st = 0; waitpid( pid, &st, 0 );
      if( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) { done = to; continue; }
      if( ! ( WIFEXITED( st ) && WEXITSTATUS( st ) == 70 ) ) fail( "crash", "process ended abnormally (" + std::to_string( st ) + ")" );
      int at = done;
      while( at < to && ps[ at ].id != sh->prog ) at++;
      done = std::min( at, to - 1 ) + 1;
   }
   printf( "DONE %llu %llu %llu %llu\n", (unsigned long long) sh->runs, (unsigned long long) sh->points, (unsigned long long) sh->switches, (unsigned long long) sh->fibers );
   return( 0 );
}
