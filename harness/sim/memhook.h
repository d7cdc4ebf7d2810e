/* force-included into instrumented objects: bulk memory operations become
   scheduling and checking points of the simulator as well */
#ifdef __cplusplus
extern "C" {
void *memcpy( void*, const void*, __SIZE_TYPE__ ) noexcept __asm__( "sim_memcpy" );
void *memmove( void*, const void*, __SIZE_TYPE__ ) noexcept __asm__( "sim_memmove" );
void *memset( void*, int, __SIZE_TYPE__ ) noexcept __asm__( "sim_memset" );
}
#endif
