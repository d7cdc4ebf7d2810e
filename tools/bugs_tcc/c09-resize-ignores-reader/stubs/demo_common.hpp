#include <raft>
#include "ringbuffer.tcc"
#include "fifo.hpp"
#include "schedule.hpp"
#include <cstdio>
#include <thread>
#include <chrono>
#include <string>
#include <vector>
#include <atomic>
#define CHECK( c ) do { if( !( c ) ) { std::printf( "broken: %s (line %d)\n", #c, __LINE__ ); std::fflush( stdout ); _Exit( 1 ); } } while( 0 )
struct open_fifo : public FIFO
{
   static void wire( FIFO *f )
   {
      static ptr_map_t in; static ptr_set_t out, inp, outp;
      ( f->*( &open_fifo::setPtrMap ) )( &in ); ( f->*( &open_fifo::setPtrSet ) )( &out );
      ( f->*( &open_fifo::setInPeekSet ) )( &inp ); ( f->*( &open_fifo::setOutPeekSet ) )( &outp );
   }
};
