#include "demo_common.hpp"
int main()
{
   FIFO *f = RingBuffer< int >::make_new_fifo( 4, 16, nullptr ); open_fifo::wire( f );
   for( int i = 0; i < 3; i++ ) f->push< int >( i );
   int &x = f->peek< int >(); CHECK( x == 0 );
   volatile bool stop = false; std::atomic< bool > done{ false };
   std::thread t( [&]{ f->resize( 8, 16, stop ); done = true; } );
   std::this_thread::sleep_for( std::chrono::milliseconds( 700 ) );
   CHECK( ! done ); CHECK( x == 0 );
   f->unpeek();
   t.join(); CHECK( f->capacity() == 8 );
   int v; for( int i = 0; i < 3; i++ ) { f->pop< int >( v ); CHECK( v == i ); }
   delete f; return( 0 );
}
