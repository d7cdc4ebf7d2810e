#include "demo_common.hpp"
struct big { long v[ 40 ]; };
int main()
{
   FIFO *f = RingBuffer< big >::make_new_fifo( 2, 16, nullptr ); open_fifo::wire( f );
   for( int i = 0; i < 2; i++ ) { big &b = f->allocate< big >(); b.v[ 0 ] = i; f->send(); }
   (void) f->get_frac_write_blocked();
   std::thread t( [&]{ big &b = f->allocate< big >(); b.v[ 0 ] = 2; f->send(); } );
   std::this_thread::sleep_for( std::chrono::milliseconds( 500 ) );
   big o; f->pop< big >( o ); CHECK( o.v[ 0 ] == 0 );
   t.join();
   CHECK( f->get_frac_write_blocked() > 0.5 );
   CHECK( f->get_frac_write_blocked() == 0 );
   for( int i = 1; i < 3; i++ ) { f->pop< big >( o ); CHECK( o.v[ 0 ] == i ); }
   delete f; return( 0 );
}
