#include "demo_common.hpp"
struct pod { long a, b; };
struct ring : public RingBuffer< pod >
{
   ring() : RingBuffer< pod >( 4, 16 ) {}
   bool armed = false;
   /** what the writing thread does at exactly this moment **/
   virtual bool is_invalid()
   {
      if( armed ) { armed = false; pod p{ 7, 8 }; FIFO *f = (FIFO*) this; f->push( p ); invalidate(); }
      return( RingBuffer< pod >::is_invalid() );
   }
};
int main()
{
   ring r; FIFO &f( *(FIFO*) &r ); open_fifo::wire( &f );
   r.armed = true;
   bool closed = false; long v = 0;
   try { pod &p = f.peek< pod >(); v = p.a; f.recycle(); } catch( ClosedPortAccessException & ) { closed = true; }
   CHECK( ! closed ); CHECK( v == 7 );
   try { (void) f.peek< pod >(); } catch( ClosedPortAccessException & ) { closed = true; }
   CHECK( closed );
   return( 0 );
}
