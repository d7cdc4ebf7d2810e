#ifndef VERIF_ACTIONS
#define VERIF_ACTIONS
/**
 * The two ends of one stream, and what each of the operations of
 * spec/Stream.tla means on them.
 */
#include <raft>
#include "ringbuffer.tcc"
#include "fifo.hpp"
#include "schedule.hpp"
#include "../sim/detsim.hpp"
#include "types.hpp"
#include <list>
#include <memory>
#include <optional>
#include <string>
#include <vector>

struct open_fifo : public FIFO
{
   static auto map_()  { return( &open_fifo::setPtrMap ); }
   static auto set_()  { return( &open_fifo::setPtrSet ); }
   static auto inpk()  { return( &open_fifo::setInPeekSet ); }
   static auto outpk() { return( &open_fifo::setOutPeekSet ); }
};
struct open_sched : public Schedule { using Schedule::fifo_gc; };

struct action { std::string op; std::vector< std::int64_t > a; std::int64_t s = 0; };

struct answer
{
   std::string x = "ok";
   std::vector< std::pair< std::int64_t, std::int64_t > > out;
   long own = 0;      /** elements the caller itself has at the moment **/
};

template < class T > struct ends
{
   static constexpr bool ext = ext_alloc< T >::value;
   ptr_map_t in; ptr_set_t out_, in_peek, out_peek;
   FIFO *f;
   std::vector< std::reference_wrapper< T > > range;
   std::vector< T* > held;
   using prange = decltype( std::declval< FIFO& >().template peek_range< T >( 1 ) );
   std::optional< prange > hr;
   long thrown = 0;   /** an exception's message is never given back by the library **/

   ends( const std::size_t cap ) : f( RingBuffer< T >::make_new_fifo( cap, 16, nullptr ) )
   {
      ( f->*open_fifo::map_() )( &in );  ( f->*open_fifo::set_() )( &out_ );
      ( f->*open_fifo::inpk() )( &in_peek ); ( f->*open_fifo::outpk() )( &out_peek );
   }
   static raft::signal sg( std::int64_t s ) { return( (raft::signal) s ); }

   /** anybody may ask **/
   bool query( const action &s, answer &me )
   {
      std::size_t n = 0;
      if( s.op == "size" ) n = f->size();
      else if( s.op == "room" ) n = f->space_avail();
      else if( s.op == "cap" ) n = f->capacity();
      else if( s.op == "closed" ) n = f->is_invalid();
      else return( false );
      me.out.emplace_back( (std::int64_t) n, -1 );
      return( true );
   }

   void writer( const action &s, answer &me )
{
      const auto &a = s.a;
      if( query( s, me ) ) return;
      if( s.op == "push" )       { me.own = 1; { T v( el< T >::mk( a[ 0 ] ) ); if( s.s ) f->template push< T >( v, sg( s.s ) ); else f->template push< T >( v ); } me.own = 0; }
      else if( s.op == "pushm" ) { me.own = 1; f->template push< T >( el< T >::mk( a[ 0 ] ), sg( s.s ) ); me.own = 0; }
      else if( s.op == "insl" )
      {
         me.own = a.size();
         { std::list< T > l; for( auto v : a ) l.push_back( el< T >::mk( v ) ); f->insert( l.begin(), l.end(), sg( s.s ) ); }
         me.own = 0;
      }
      else if( s.op == "insv" )
      {
         me.own = a.size();
         { std::vector< T > l; l.reserve( a.size() ); for( auto v : a ) l.push_back( el< T >::mk( v ) ); f->insert( l.begin(), l.end(), sg( s.s ) ); }
         me.own = 0;
      }
      else if( s.op == "alloc" )
      {
         if constexpr( el< T >::tracked ) { T &r = f->template allocate< T >( a[ 0 ] ); (void) r; }
         else { T &r = f->template allocate< T >(); r = el< T >::mk( a[ 0 ] ); }
      }
      else if( s.op == "allocs" )
      {
         if constexpr( el< T >::tracked ) { auto r( f->template allocate_s< T >( a[ 0 ] ) ); if( s.s ) r.sig() = sg( s.s ); (void) el< T >::id( *r ); }
         else { auto r( f->template allocate_s< T >() ); *r = el< T >::mk( a[ 0 ] ); if( s.s ) r.sig() = sg( s.s ); }
      }
      else if( s.op == "allocr" )
      {
         if constexpr( ! ext )
         {
            range = f->template allocate_range< T >( a.size() );
            if( range.size() != a.size() ) { me.x = "bad-range"; return; }
            for( std::size_t i = 0; i < a.size(); i++ ) range[ i ].get() = el< T >::mk( a[ i ] );
         }
      }
      else if( s.op == "send" )    { if( s.s ) f->send( sg( s.s ) ); else f->send(); }
      else if( s.op == "sendr" )   { if( s.s ) f->send_range( sg( s.s ) ); else f->send_range(); range.clear(); }
      else if( s.op == "dealloc" ) { f->deallocate(); range.clear(); }
      else if( s.op == "close" )   f->invalidate();
      else me.x = "bad-op";
   }

   void reader( const action &s, answer &me )
{
      if( query( s, me ) ) return;
      raft::signal g = (raft::signal) 0x7fffffff;
      auto add = [&]( const T &t, raft::signal q ) { me.out.emplace_back( el< T >::id( t ), (std::int64_t) q ); };
      auto gc  = [&]{ open_sched::fifo_gc( &in, &out_, &in_peek ); };
      if( s.op == "pop" )       { me.own = 1; { T v{}; try{ f->template pop< T >( v, &g ); add( v, g ); } catch( ClosedPortAccessException & ) { thrown++; me.x = "closed"; } } me.own = 0; held.clear(); gc(); }
      else if( s.op == "popn" ) { me.own = 1; { T v{}; try{ f->template pop< T >( v ); add( v, raft::none ); } catch( ClosedPortAccessException & ) { thrown++; me.x = "closed"; } } me.own = 0; held.clear(); gc(); }
      else if( s.op == "pops" )
      {
         try { auto v( f->template pop_s< T >() ); add( *v, v.sig() ); } catch( ClosedPortAccessException & ) { thrown++; me.x = "closed"; }
         held.clear(); gc();
      }
      else if( s.op == "popr" )
      {
         const std::size_t n = s.a[ 0 ];
         me.own = n;
         {
            std::vector< std::pair< T, raft::signal > > v( n );
            try { f->template pop_range< T >( v, n ); for( auto &p : v ) add( p.first, p.second ); }
            catch( ClosedPortAccessException & ) { thrown++; me.x = "closed"; }
         }
         me.own = 0; if( n ) held.clear(); gc();
      }
      else if( s.op == "peek" )
      {
         hr.reset();
         try { T &t = f->template peek< T >( &g ); add( t, g ); held.assign( 1, &t ); }
         catch( ClosedPortAccessException & ) { thrown++; me.x = "closed"; }
      }
      else if( s.op == "peekr" )
      {
         const std::size_t n = s.a[ 0 ];
         hr.reset();
         try
         {
            auto v( f->template peek_range< T >( n ) );
            held.clear();
            hr.emplace( v );    /** the copy takes over **/
            if( v.size() != n ) me.x = "bad-size";
            for( std::size_t i = 0; i < n; i++ )
            {
               auto p( v[ i ] );
               add( p.ele, p.sig );
               held.push_back( &p.ele );
            }
            bool refused = false;
            try { auto p( v[ n ] ); (void) p; } catch( std::length_error & ) { refused = true; }
            if( ! refused ) me.x = "index-accepted";
         }
         catch( ClosedPortAccessException & ) { thrown++; me.x = "closed"; }
         catch( NoMoreDataException & )       { thrown++; me.x = "nodata"; }
      }
      else if( s.op == "look" )   { for( std::size_t i = 0; i < held.size(); i++ ) me.out.emplace_back( el< T >::id( *held[ i ] ), -1 ); }
      else if( s.op == "unpeek" ) { if( hr ) hr.reset(); else f->unpeek(); held.clear(); }
      else if( s.op == "recycle" ) { if( s.a[ 0 ] == 1 ) f->recycle(); else f->recycle( s.a[ 0 ] ); if( s.a[ 0 ] ) held.clear(); gc(); }
      else me.x = "bad-op";
   }
};

#endif
