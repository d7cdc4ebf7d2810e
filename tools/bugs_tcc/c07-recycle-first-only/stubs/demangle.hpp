// Stand-in for the demangle submodule header (empty in this checkout).
#ifndef VERIF_STUB_DEMANGLE
#define VERIF_STUB_DEMANGLE 1
#include <cxxabi.h>
#include <cstdlib>
#include <string>
namespace raft
{
static inline std::string demangle( const char *name )
{
   int status( 0 );
   char *p( abi::__cxa_demangle( name, nullptr, nullptr, &status ) );
   if( status != 0 || p == nullptr ) { return( name ); }
   std::string out( p );
   std::free( p );
   return( out );
}
}
#endif
