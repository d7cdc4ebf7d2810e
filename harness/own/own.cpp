/**
 * own - replays behaviours of spec/Ownership.tla on the real kernel factory,
 * wrappers and map.
 *
 * usage:  own <file>
 * file:   N <id>
 *         O <op> <a> <b> <n> <kernels alive afterwards>*n
 *     or  T <n> <kind>*n         a thread of spec/Identities.tla that makes kernels
 * output: R <id> <identities>, FAIL <id> <step> <kind> <detail>
 *         DONE <behaviours> <steps>
 */
#include <raft>
#include "../sim/detsim.hpp"
#include "../sim/seqs.hpp"
#include <map>
#include <memory>
#include <optional>
#include <set>

static std::set< int > live;
static int count_made;
static std::map< int, raft::kernel* > at;
static std::set< std::size_t > ids;

struct node : public raft::kernel
{
   const int id;
   node( int i ) : id( i )
   {
      input.addPort< int >( "0" );
      output.addPort< int >( "0" );
      live.insert( id ); at[ id ] = this;
      if( ! ids.insert( get_id() ).second ) seqs::fail( "id", "two kernels with the same id" );
   }
   virtual ~node()
   {
      if( live.erase( id ) == 0 ) seqs::fail( "twice", "kernel " + std::to_string( id ) + " destroyed twice" );
   }
   virtual raft::kstatus run() { return( raft::stop ); }
};
struct caller : public raft::kernel
{
   caller()
   {
      for( int i = 0; i < 32; i++ )
      {
         output.addPort< int >( "o" + std::to_string( i ) );
         input.addPort< int >( "x" + std::to_string( i ) );
      }
      if( ! ids.insert( get_id() ).second ) seqs::fail( "id", "two kernels with the same id" );
   }
   virtual ~caller() { if( ! over && ! std::uncaught_exceptions() ) seqs::fail( "caller", "the caller's kernel was destroyed" ); }
   bool over = false;
   virtual raft::kstatus run() { return( raft::stop ); }
};

static raft::kernel *latest[ 64 ];       /** of each thread **/
struct plain : public raft::kernel
{
   plain() { latest[ sim::self() % 64 ] = this; }
   plain( const plain &other ) : raft::kernel() { (void) other; latest[ sim::self() % 64 ] = this; }
   plain( void *p, std::size_t n ) : raft::kernel( p, n ) { latest[ sim::self() % 64 ] = this; }
   CLONE();
   virtual raft::kstatus run() { return( raft::stop ); }
};
static std::uint64_t seed = 1;
/** kernels made by several threads at once **/
static void identities( const seqs::seq &q )
{
   sim::config c;
   c.seed = seed * 31 + q.id;
   c.policy = q.id % 3 == 2 ? sim::PCT : sim::RANDOM; c.denom = 2 + q.id % 3; c.depth = 3; c.horizon = 300;
   std::string out( "[" );
   const auto r = sim::run( c, [&]()
   {
      std::vector< int > ts;
      for( auto &l : q.lines ) ts.push_back( sim::spawn( [ &l, &out ]()
      {
         std::stringstream ss( l ); std::string o; int n; ss >> o >> n;
         std::vector< std::unique_ptr< raft::kernel > > ks;
         std::vector< std::unique_ptr< raft::kernel_wrapper > > ws;
         raft::kernel *first = nullptr;
         std::vector< char > mem( 64 );
         while( n-- )
         {
            ss >> o;
            if( o == "own" )        ks.emplace_back( new plain() );
            else if( o == "place" ) ks.emplace_back( new plain( mem.data(), mem.size() ) );
            else if( o == "make" )  ws.emplace_back( new raft::kernel_wrapper( raft::kernel::make< plain >() ) );
            else                    ks.emplace_back( first->clone() );
            auto * const k( latest[ sim::self() % 64 ] );
            if( first == nullptr ) first = k;
            const auto id( k->get_id() );
            sim::no_preempt( true );
            out += ( out.size() > 1 ? "," : "" ) + std::to_string( id );
            sim::no_preempt( false );
            seqs::step();
         }
      } ) );
      for( int t : ts ) sim::join( t );
   } );
   if( ! r.ok ) seqs::fail( "run", r.what );
   else seqs::report( out + "]" );
}

static void run_one( const seqs::seq &q )
{
   if( ! q.lines.empty() && q.lines[ 0 ][ 0 ] == 'T' ) { identities( q ); return; }
   live.clear(); at.clear(); ids.clear(); count_made = 0;
   sim::config c;
   c.policy = sim::RANDOM; c.denom = 1000000;
   const auto r = sim::run( c, [&]()
   {
      std::optional< raft::kernel_wrapper > w[ 8 ];
      auto u( std::make_unique< caller >() );
      auto m( std::make_unique< raft::map >() );
      int outs = 0, again = 0;
      for( auto &l : q.lines )
      {
         std::stringstream ss( l );
         std::string o, op; int a, b, n;
         ss >> o >> op >> a >> b >> n;
         std::set< int > want;
         for( int i = 0; i < n; i++ ) { int x; ss >> x; want.insert( x ); }
         if( op == "make" )        w[ a ].emplace( raft::kernel::make< node >( ++count_made ) );
         else if( op == "copy" )   w[ b ].emplace( *w[ a ] );
         else if( op == "assign" ) *w[ b ] = *w[ a ];
         else if( op == "drop" )   w[ a ].reset();
         else if( op == "use" )    *m += std::move( *w[ a ] ) >> std::move( *w[ b ] );
         else if( op == "caller" ) *m += ( *u )[ "o" + std::to_string( outs++ ) ] >> std::move( *w[ a ] );
         else if( op == "bad" )
         {
            bool refused = false;
            try { *m += ( *u )[ std::string( "nosuchport" ) ] >> std::move( *w[ a ] ); }
            catch( PortException & ) { refused = true; }
            if( ! refused ) seqs::fail( "accepted", "a port that does not exist" );
         }
         else if( op == "again" )
         {
            if( ! live.count( a ) ) { seqs::fail( "gone", "a kernel of the map was destroyed" ); return; }
            /** connected on one more side, or refused if there is none left **/
            try { m->link( at[ a ], "0", u.get(), "x" + std::to_string( again++ ) ); }
            catch( PortDoubleInitializeException & )
            {
               try { m->link( u.get(), "o" + std::to_string( outs++ ), at[ a ], "0" ); }
               catch( PortDoubleInitializeException & ) {}
            }
         }
         else if( op == "unmap" )  m.reset();
         if( live != want )
         {
            std::string s;
            for( auto x : live ) s += " " + std::to_string( x );
            seqs::fail( "alive", "after " + l + ": alive are" + s );
            return;
         }
         seqs::step();
      }
      for( auto &x : w ) x.reset();
      m.reset();
      if( ! live.empty() ) seqs::fail( "leak", "a kernel was never destroyed" );
      u->over = true;
   } );
   if( ! r.ok ) seqs::fail( "run", r.what );
}

int main( int argc, char **argv ) { if( argc > 2 ) seed = atoll( argv[ 2 ] ); return( seqs::main( argc, argv, run_one ) ); }
