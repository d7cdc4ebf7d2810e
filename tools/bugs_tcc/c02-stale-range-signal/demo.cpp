#include "demo_common.hpp"
int main()
{
   FIFO *f = RingBuffer< int >::make_new_fifo( 4, 16, nullptr ); open_fifo::wire( f );
   int v; raft::signal s;
   for( int i = 0; i < 4; i++ ) f->push< int >( i, (raft::signal)( 100 + i ) );
   for( int i = 0; i < 4; i++ ) { f->pop< int >( v, &s ); CHECK( v == i && s == (raft::signal)( 100 + i ) ); }
   auto r = f->allocate_range< int >( 3 );
   for( int i = 0; i < 3; i++ ) r[ i ].get() = 10 + i;
   f->send_range( (raft::signal) 55 );
   for( int i = 0; i < 3; i++ ) { f->pop< int >( v, &s ); CHECK( v == 10 + i ); CHECK( s == (raft::signal)( i == 2 ? 55 : raft::none ) ); }
   delete f; return( 0 );
}
