/**
 * ports - declares ports on real kernels, links them to peers and reports
 * everything that can be observed of the port tables, for
 * spec/PortsTrace.tla.
 *
 * usage:  ports <file>
 * file:   N <id>
 *         B <bytes of existing memory>
 *         U <n> <name>*n                      the names looked up
 *         A <in|out> <type> <n> <name>*n      addPort< type >( names... )
 *         I <in|out> <type> <n>               addInPlacePorts< type >( n )
 *         L <in|out> <name>                   link it to a peer
 * output: R <id> <json>, FAIL ..., DONE <behaviours> <steps>
 */
#include <raft>
#include "ringbuffer.tcc"
#include "fifo.hpp"
#include "graphtools.hpp"
#include "portexception.hpp"
#include "mapexception.hpp"
#include "../sim/detsim.hpp"
#include "../sim/seqs.hpp"
#include <map>
#include <memory>

struct wide { char x[ 24 ]; };
struct huge { char x[ 100 ]; };

/** f.operator()< T >() for the type of a letter **/
template < class F > static void with( const char t, F f )
{
   switch( t )
   {
      case 'i': f.template operator()< int >(); break;
      case 'd': f.template operator()< double >(); break;
      case 'c': f.template operator()< char >(); break;
      case 'w': f.template operator()< wide >(); break;
      case 'h': f.template operator()< huge >(); break;
      default:  f.template operator()< std::string >();
   }
}
static std::string letter( const std::type_index &x )
{
   for( const char t : std::string( "idcwhs" ) )
   {
      bool eq = false;
      with( t, [&]< class T >() { eq = x == std::type_index( typeid( T ) ); } );
      if( eq ) return( std::string( 1, t ) );
   }
   return( "?" );
}
struct plain : public raft::kernel { virtual raft::kstatus run() { return( raft::stop ); } };
struct exist : public raft::kernel
{
   exist( void *p, std::size_t n ) : raft::kernel( p, n ) {}
   virtual raft::kstatus run() { return( raft::stop ); }
};
static std::string str( const std::string &s ) { return( "\"" + s + "\"" ); }
template < class V, class F > static std::string lst( const V &v, F f )
{
   std::string s = "[";
   for( auto &x : v ) { if( s.size() > 1 ) s += ","; s += f( x ); }
   return( s + "]" );
}
template < class F > static std::string attempt( F f )
{
   try { f(); return( "ok" ); }
   catch( PortNotFoundException & ) { return( "PortNotFoundException" ); }
   catch( PortAlreadyExists & ) { return( "PortAlreadyExists" ); }
   catch( PortTypeMismatchException & ) { return( "PortTypeMismatchException" ); }
   catch( RaftException &e ) { return( "RaftException" ); }
   catch( std::exception &e ) { return( "exception" ); }
}
/** names are handed over as they come in user code: named strings, temporary strings, characters **/
template < class T > static void declare( Port &p, std::vector< std::string > &n, const int how )
{
   switch( n.size() )
   {
      case 0: p.addPort< T >(); break;
      case 1: if( how % 3 == 0 ) p.addPort< T >( n[ 0 ] );
              else if( how % 3 == 1 ) p.addPort< T >( std::string( n[ 0 ] ) );
              else p.addPort< T >( n[ 0 ].c_str() );
              break;
      case 2: if( how % 3 == 0 ) p.addPort< T >( n[ 0 ], n[ 1 ] );
              else if( how % 3 == 1 ) p.addPort< T >( std::string( n[ 0 ] ), n[ 1 ].c_str() );
              else p.addPort< T >( n[ 0 ].c_str(), std::string( n[ 1 ] ) );
              break;
      case 3: p.addPort< T >( n[ 0 ], std::string( n[ 1 ] ), n[ 2 ].c_str() ); break;
      case 4: p.addPort< T >( n[ 0 ], n[ 1 ], n[ 2 ], n[ 3 ] ); break;
      case 5: p.addPort< T >( n[ 0 ], n[ 1 ], n[ 2 ], n[ 3 ], n[ 4 ] ); break;
      default: seqs::fail( "harness", "too many names" );
   }
}
static std::string names( Port &p )
{
   std::vector< std::string > v;
   for( auto it( p.begin() ); it != p.end(); ++it )
   {
      v.push_back( it.name() );
      if( v.size() > 500 ) break;
      if( it == p.end() ) { v.push_back( "?equal" ); break; }
   }
   return( lst( v, str ) );
}
static std::string dump( Port &p, const std::vector< std::string > &u, const std::set< std::string > &have )
{
   std::string s = "{\"order\":" + names( p );
   s += ",\"types\":" + lst( u, [&]( const std::string &n )
   {
      std::string t;
      const auto r( attempt( [&]() { t = letter( p.getPortType( std::string( n ) ) ); } ) );
      return( "[" + str( n ) + "," + str( r == "ok" ? t : r ) + "]" );
   } );
   std::vector< std::string > no;
   for( auto &n : u ) if( ! have.count( n ) ) no.push_back( n );
   int k = 0;
   s += ",\"op\":" + lst( no, [&]( const std::string &n )
   {
      const auto r( attempt( [&]() { volatile const void *x = k++ % 2 ? &p[ n ] : &p[ std::string( n ) ]; (void) x; } ) );
      return( "[" + str( n ) + "," + str( r ) + "]" );
   } );
   s += ",\"again\":" + names( p );
   s += ",\"count\":" + std::to_string( p.count() ) + ",\"has\":" + ( p.hasPorts() ? "true" : "false" ) + "}";
   return( s );
}

static void run_one( const seqs::seq &q )
{
   sim::config c;
   c.policy = sim::RANDOM; c.denom = 1000000;
   const auto r = sim::run( c, [&]()
   {
      std::vector< char > mem;
      std::unique_ptr< raft::kernel > k( std::make_unique< plain >() );
      std::vector< std::string > u, steps;
      std::map< std::string, std::set< std::string > > have;
      struct want { std::string side, name, ok; raft::kernel *peer; };
      std::vector< want > links;
      std::vector< std::unique_ptr< raft::kernel > > peers;
      raft::map m;
      int how = 0;
      for( auto &l : q.lines )
      {
         std::stringstream ss( l );
         std::string o, side, type; std::size_t n = 0;
         ss >> o;
         if( o == "B" )
         {
            ss >> n;
            mem.resize( n );
            k = std::make_unique< exist >( mem.data(), n );
         }
         else if( o == "U" )
         {
            ss >> n; u.resize( n );
            for( auto &x : u ) ss >> x;
         }
         else if( o == "A" || o == "I" )
         {
            ss >> side >> type >> n;
            auto &p( side == "in" ? k->input : k->output );
            std::string res;
            if( o == "A" )
            {
               std::vector< std::string > v( n );
               for( auto &x : v ) ss >> x;
               with( type[ 0 ], [&]< class T >() { res = attempt( [&]() { declare< T >( p, v, how++ ); } ); } );
            }
            else with( type[ 0 ], [&]< class T >() { res = attempt( [&]() { p.addInPlacePorts< T >( n ); } ); } );
            /** which names are there now decides where a stream may be asked for **/
            have[ side ].clear();
            for( auto it( p.begin() ); it != p.end(); ++it ) have[ side ].insert( it.name() );
            steps.push_back( "{\"r\":" + str( res ) + ",\"in\":" + dump( k->input, u, have[ "in" ] ) + ",\"out\":" + dump( k->output, u, have[ "out" ] ) + "}" );
         }
         else if( o == "L" )
         {
            want w;
            ss >> w.side >> w.name;
            auto &p( w.side == "in" ? k->input : k->output );
            std::string t = "i";
            if( have[ w.side ].count( w.name ) ) t = letter( p.getPortType( std::string( w.name ) ) );
            peers.push_back( std::make_unique< plain >() );
            w.peer = peers.back().get();
            with( t[ 0 ], [&]< class T >() { if( w.side == "in" ) w.peer->output.addPort< T >( "y" ); else w.peer->input.addPort< T >( "x" ); } );
            w.ok = attempt( [&]() { if( w.side == "in" ) m.link( w.peer, "y", k.get(), w.name ); else m.link( k.get(), w.name, w.peer, "x" ); } );
            links.push_back( w );
         }
         seqs::step();
      }
      /** a stream of its own for every linked port **/
      struct seen { PortInfo *mine; FIFO *f; };
      std::map< raft::kernel*, seen > at;
      std::set< raft::kernel* > from;
      from.insert( k.get() );
      for( auto &w : links ) if( w.side == "in" && w.ok == "ok" ) from.insert( w.peer );
      GraphTools::BFS( from, []( PortInfo &a, PortInfo &b, void *d )
      {
         auto &x( *reinterpret_cast< std::map< raft::kernel*, seen >* >( d ) );
         x[ a.my_kernel ] = { &b, nullptr }; x[ b.my_kernel ] = { &a, nullptr };
      }, (void*) &at );
      std::map< FIFO*, int > id;
      int next = 0;
      for( auto &w : links )
         if( w.ok == "ok" && at.count( w.peer ) )
         {
            auto &e( at[ w.peer ] );
            e.f = e.mine->const_map[ Type::Heap ]->at( false )( 4, 16, nullptr );
            id[ e.f ] = ++next;
            e.mine->setFIFO( e.f );
         }
      auto which = [&]( FIFO &f ) { return( id.count( &f ) ? id[ &f ] : 0 ); };
      std::vector< std::string > out;
      for( auto &w : links )
      {
         std::string s = "{\"side\":" + str( w.side ) + ",\"name\":" + str( w.name ) + ",\"ok\":" + str( w.ok );
         if( w.ok == "ok" && at.count( w.peer ) && at[ w.peer ].f )
         {
            auto &p( w.side == "in" ? k->input : k->output );
            auto &e( at[ w.peer ] );
            int it1 = 0;
            for( auto it( p.begin() ); it != p.end(); ++it ) if( it.name() == w.name ) it1 = which( *it );
            const std::string lv( w.name );
            const auto ty( letter( e.mine->type ) );
            long off = 0; const long n = e.mine->nitems;
            if( e.mine->existing_buffer )
            {
               std::size_t sz = 1;
               with( ty[ 0 ], [&]< class T >() { sz = sizeof( T ); } );
               const long b = (char*) e.mine->existing_buffer - mem.data();
               off = b % (long) sz ? -1 : b / (long) sz;
               if( off != (long) e.mine->start_index ) off = -2;
            }
            s += ",\"type\":" + str( ty ) + ",\"kernel\":" + ( e.mine->my_kernel == k.get() ? "true" : "false" ) + ",\"name2\":" + str( e.mine->my_name )
               + ",\"at\":" + std::to_string( off ) + ",\"n\":" + std::to_string( n ) + ",\"id\":" + std::to_string( id[ e.f ] )
               + ",\"got\":[" + std::to_string( which( p[ lv ] ) ) + "," + std::to_string( which( p[ std::string( w.name ) ] ) ) + "," + std::to_string( it1 ) + "]";
         }
         else s += ",\"type\":\"\",\"kernel\":false,\"name2\":\"\",\"at\":0,\"n\":0,\"id\":0,\"got\":[]";
         out.push_back( s + "}" );
      }
      sim::no_preempt( true );
      auto same = []( const std::string &s ) { return( s ); };
      seqs::report( "{\"steps\":" + lst( steps, same ) + ",\"links\":" + lst( out, same ) + "}" );
      sim::no_preempt( false );
   } );
   if( ! r.ok ) seqs::fail( "run", r.what );
}
int main( int argc, char **argv ) { return( seqs::main( argc, argv, run_one ) ); }
