/**
 * track - life time bookkeeping of element objects.  Compiled without
 * instrumentation, no heap use.
 */
#ifndef TRACK_HPP
#define TRACK_HPP 1
#include <cstddef>
#include <string>
namespace track
{
/** an object's life starts / ends / is used at p */
void born( const void *p );
void died( const void *p );
void used( const void *p );
/** forget everything */
void reset();
long live();
/** 1, 2, 3, ... since the last reset **/
long fresh();
/** memory used again at once (see types.hpp): start empty, on or off, which() says which
 *  list the calling thread uses, nullptr: all the same; nullptr / false: not from here **/
void  pool_start( bool on, int ( *which )() = nullptr );
void *pool_get( std::size_t n );
bool  pool_put( void *p );
/** message of the first life time error, or "" */
extern void (*report)( const char *what );
}
#endif
