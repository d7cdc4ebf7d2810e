#include "demo_common.hpp"
static int alive[ 100 ];
struct obj { int id; obj( int i = 0 ) : id( i ) { alive[ id ]++; } obj( const obj &o ) : id( o.id ) { alive[ id ]++; }
             obj &operator=( const obj &o ) { alive[ id ]--; id = o.id; alive[ id ]++; return( *this ); } ~obj() { alive[ id ]--; } };
int main()
{
   FIFO *f = RingBuffer< obj >::make_new_fifo( 8, 16, nullptr ); open_fifo::wire( f );
   for( int i = 1; i < 6; i++ ) { obj o( i ); f->push< obj >( o ); }
   for( int i = 1; i < 6; i++ ) CHECK( alive[ i ] == 1 );
   f->recycle( 1 ); CHECK( alive[ 1 ] == 0 );
   f->recycle( 3 );
   for( int i = 1; i < 5; i++ ) CHECK( alive[ i ] == 0 );
   CHECK( alive[ 5 ] == 1 );
   delete f; return( 0 );
}
