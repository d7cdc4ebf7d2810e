/** see detsim.hpp; this file is compiled WITHOUT -fsanitize=thread **/
#include "detsim.hpp"
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <execinfo.h>
#include <map>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <dlfcn.h>

extern "C" void *__libc_malloc( size_t );
extern "C" void *__libc_calloc( size_t, size_t );
extern "C" void *__libc_realloc( void*, size_t );
extern "C" void *__libc_memalign( size_t, size_t );
extern "C" void  __libc_free( void* );

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

namespace sim
{
std::function< void( const std::string & ) > on_fatal;

/* ------------------------------------------------------------------ arena */
static const std::size_t ARENA  = std::size_t( 2 ) << 30;
static const std::size_t RED    = 16;
static std::uint8_t *arena      = nullptr;
static std::size_t   arena_top  = 0;
/** one shadow byte per 8 bytes: 0 = not addressable, 1..8 = addressable
 *  prefix, 0xfd = freed **/
static std::uint8_t *shadow     = nullptr;
static std::size_t   live_n     = 0;
static bool          arena_on   = false;

struct chunk { std::size_t size; std::uint64_t magic; };
static const std::uint64_t MAGIC = 0x5a17c0de5a17c0deULL;

static inline bool in_arena( const void *p )
{
   return( arena && (std::uint8_t*)p >= arena && (std::uint8_t*)p < arena + ARENA );
}

static void arena_init()
{
   arena  = (std::uint8_t*) mmap( nullptr, ARENA, PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
   shadow = (std::uint8_t*) mmap( nullptr, ARENA / 8, PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
   if( arena == MAP_FAILED || shadow == MAP_FAILED ) { perror( "mmap" ); _exit( 3 ); }
   arena_top = 4096;
}

static void *arena_alloc( std::size_t n, std::size_t align )
{
   if( align < 16 ) align = 16;
   std::size_t p = arena_top + sizeof( chunk ) + RED;
   p = ( p + align - 1 ) / align * align;
   std::size_t end = p + ( ( n + 7 ) / 8 ) * 8 + RED;
   if( end + 4096 > ARENA ) { fault( "hang: allocates for ever" ); fprintf( stderr, "detsim: arena exhausted\n" ); _exit( 4 ); }
   chunk *c = (chunk*)( arena + p - sizeof( chunk ) );
   c->size = n; c->magic = MAGIC;
   memset( shadow + p / 8, 8, n / 8 );
   if( n % 8 ) shadow[ ( p + n ) / 8 ] = n % 8;
   arena_top = ( end + 15 ) & ~std::size_t( 15 );
   live_n++;
   /** deterministic, recognisable garbage instead of zeroes **/
   memset( arena + p, 0xcb, n );
   return( arena + p );
}

static void arena_free( void *ptr )
{
   chunk *c = (chunk*)( (std::uint8_t*) ptr - sizeof( chunk ) );
   const std::size_t p = (std::uint8_t*)ptr - arena;
   if( c->magic != MAGIC )
   {
      fault( c->magic == ~MAGIC ? "memory: double free" : "memory: free of an address that was not allocated" );
      return;
   }
   c->magic = ~MAGIC;
   memset( shadow + p / 8, 0xfd, ( c->size + 7 ) / 8 );
   memset( ptr, 0xdd, c->size );
   live_n--;
}

void block( std::size_t n ) { if( arena_on ) arena_top = ( arena_top + n - 1 ) / n * n; }
std::size_t live_chunks() { return( live_n ); }
bool is_freed( const void *p )
{
   return( in_arena( p ) && shadow[ ( (std::uint8_t*)p - arena ) / 8 ] == 0xfd );
}

/* ----------------------------------------------------------------- fibers */
struct fiber
{
   int            id;
   void          *sp        = nullptr;
   std::uint8_t  *stack     = nullptr;
   std::size_t    stack_sz  = 0;
   std::function< void() > f;
   bool           done      = false;
   std::function< bool() > pred;      /** blocked until true **/
   bool           blocked   = false;
   std::uint64_t  wake      = 0;      /** sleeping until **/
   bool           sleeping  = false;
   std::uint64_t  yields    = 0;      /** consecutive yields w/o progress **/
   std::uint64_t  ticks     = 0;      /** scheduling points w/o progress **/
   std::int64_t   prio      = 0;
   char           eh[ 16 ]  = {};     /** __cxa_eh_globals **/
   pthread_t      handle    = 0;
   bool           quiescing = false;
   int            qspins    = 0;
   /** stores nobody else sees yet, oldest first (config::tso) **/
   std::uint8_t  *sb_a[ 64 ];
   std::uint8_t   sb_n[ 64 ];
   std::uint8_t   sb_v[ 64 ][ 16 ];   /** running: the value before, else: the value stored **/
   unsigned       sb_lo = 0, sb_hi = 0;
};

static std::vector< fiber* >  fibers;
static std::uint64_t own_stack = 0;
static std::vector< std::uint8_t* > stack_pool;
static fiber                 *cur       = nullptr;
static void                  *main_sp   = nullptr;
static bool                   on        = false;   /** simulation active **/
static config                 cfg;
static result                 res;
static std::uint64_t          step_n    = 0;
static std::uint64_t          hang_at   = 0;   /** see alive() **/
static std::uint64_t          since_sw  = 0;
static std::uint64_t          vtime     = 0;
static std::uint64_t          rng       = 1;
static int                    np        = 0;
static std::size_t            plan_i    = 0;
static std::vector< std::uint64_t > pct_points;
static std::size_t            pct_i     = 0;
static std::int64_t           pct_low   = -1;
static bool                   stopping  = false;
static const std::size_t      STACK     = 256 * 1024;

static inline std::uint64_t rnd()
{
   rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
   return( rng * 0x2545F4914F6CDD1DULL >> 11 );
}

extern "C" void detsim_switch( void **save, void *load );
__asm__(
".text\n.globl detsim_switch\n.type detsim_switch,@function\ndetsim_switch:\n"
"  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
"  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
"  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
".size detsim_switch,.-detsim_switch\n" );

static void save_eh( fiber *f )    { memcpy( f->eh, (void*) __cxxabiv1::__cxa_get_globals(), 16 ); }
static void restore_eh( fiber *f ) { memcpy( (void*) __cxxabiv1::__cxa_get_globals(), f->eh, 16 ); }

static void end_all() __attribute__(( noreturn ));
static void end_all()
{
   /** abandon every fiber and return to run() **/
   stopping = true;
   void *dummy;
   detsim_switch( &dummy, main_sp );
   abort();
}

void fault( const std::string &what )
{
   if( res.ok ) { res.ok = false; res.what = what; }
   if( getenv( "DETSIM_BT" ) )
   {
      void *bt[ 40 ];
      int n = backtrace( bt, 40 );
      fprintf( stderr, "detsim fault (fiber %d): %s\n", cur ? cur->id : -1, what.c_str() );
      backtrace_symbols_fd( bt, n, 2 );
   }
   if( on && cur ) end_all();
}

/** predicates are not part of the simulated program **/
static bool holds( fiber *f ) { np++; const bool b = f->pred(); np--; return( b ); }
static bool holds( const std::function< bool() > &p ) { np++; const bool b = p(); np--; return( b ); }

void finish() { end_all(); }

static bool ready( fiber *f )
{
   if( f->done ) return( false );
   if( f->sleeping )
   {
      if( vtime < f->wake ) return( false );
      f->sleeping = false;
   }
   if( f->blocked )
   {
      if( ! holds( f ) ) return( false );
      f->blocked = false;
      f->pred = nullptr;
   }
   return( true );
}

/* ---------------------------------------------------------- store buffers */
/** While a fiber runs, memory is as it sees it, its own stores included.  When
 *  another one goes on those not committed are taken back, oldest last, and
 *  they are put in place again when it returns: what x86 processors do. **/
static inline void swap_bytes( std::uint8_t *a, std::uint8_t *b, unsigned n )
{
   for( unsigned i = 0; i < n; i++ ) { const std::uint8_t x = a[ i ]; a[ i ] = b[ i ]; b[ i ] = x; }
}
static void sb_take_back( fiber *f )
{
   for( unsigned i = f->sb_hi; i != f->sb_lo; )
   {
      i--;
      swap_bytes( f->sb_a[ i % 64 ], f->sb_v[ i % 64 ], f->sb_n[ i % 64 ] );
   }
}
static void sb_put_back( fiber *f )
{
   for( unsigned i = f->sb_lo; i != f->sb_hi; i++ )
      swap_bytes( f->sb_a[ i % 64 ], f->sb_v[ i % 64 ], f->sb_n[ i % 64 ] );
}
/** all stores of the running fiber are seen by everyone from now on **/
static inline void fence() { if( cur ) cur->sb_lo = cur->sb_hi; }
/** some of the oldest stores arrive in memory; nobody's are in place **/
static bool sb_commit_some( fiber *f )
{
   unsigned k = f->sb_hi - f->sb_lo;
   if( k == 0 ) return( true );
   switch( rnd() % 8 )
   {
      case 0: case 1: break;
      case 2: k = rnd() % ( k + 1 ); break;
      default: k = 0;
   }
   for( ; k > 0; k--, f->sb_lo++ )
   {
      const unsigned i = f->sb_lo % 64;
      if( is_freed( f->sb_a[ i ] ) ) return( false );
      memcpy( f->sb_a[ i ], f->sb_v[ i ], f->sb_n[ i ] );
   }
   return( true );
}

static void switch_to( fiber *t )
{
   if( t == cur ) return;
   fiber *from = cur;
   if( cfg.tso )
   {
      sb_take_back( from );
      bool fine = true;
      for( fiber *f : fibers ) if( ! sb_commit_some( f ) ) fine = false;
      if( ! fine ) { sb_put_back( from ); fault( "memory: store to freed memory" ); }
      sb_put_back( t );
   }
   save_eh( from );
   cur = t;
   res.switches++;
   since_sw = 0;
   restore_eh( t );
   detsim_switch( &from->sp, t->sp );
   /** back **/
}

/** fibers that could run now, advancing virtual time if only sleepers remain **/
static void collect( std::vector< fiber* > &out, bool with_cur )
{
   for( ;; )
   {
      out.clear();
      bool sleeper = false;
      std::uint64_t next = ~0ULL;
      for( fiber *f : fibers )
      {
         if( f == cur && ! with_cur && ! f->blocked && ! f->sleeping ) continue;
         if( ready( f ) ) out.push_back( f );
         else if( ! f->done && f->sleeping ) { sleeper = true; if( f->wake < next ) next = f->wake; }
      }
      if( ! out.empty() ) return;
      if( ! with_cur && cur && ! cur->done && ! cur->blocked && ! cur->sleeping ) return;
      if( ! sleeper ) return;
      vtime = next;
   }
}

static std::vector< fiber* > cand;

/** pick the next fiber when the current one may or must give way **/
static fiber *choose( bool must_leave )
{
   collect( cand, ! must_leave );
   if( cand.empty() )
   {
      if( must_leave && cur && ready( cur ) ) return( cur );
      return( nullptr );
   }
   switch( cfg.policy )
   {
      case RANDOM: return( cand[ rnd() % cand.size() ] );
      case PCT:
      {
         fiber *best = cand[ 0 ];
         for( fiber *f : cand ) if( f->prio > best->prio ) best = f;
         return( best );
      }
      case PLAN:
      default:
      {
         /** round robin: next id after current **/
         const int c = cur ? cur->id : -1;
         fiber *best = nullptr;
         for( fiber *f : cand ) if( f->id > c ) { best = f; break; }
         return( best ? best : cand[ 0 ] );
      }
   }
}

static void leave( bool must )   /** give up the processor **/
{
   fence();
   fiber *t = choose( must );
   if( t == nullptr )
   {
      fault( "deadlock: no thread can run" );
      end_all();
   }
   switch_to( t );
}

static void tick()
{
   if( ! on || np || stopping ) return;
   step_n++;
   since_sw++;
   cur->ticks++;
   vtime += cfg.tick_ns;
   if( step_n > hang_at ) { fault( "hang: step budget exhausted" ); end_all(); }
   switch( cfg.policy )
   {
      case RANDOM:
         if( rnd() % cfg.denom == 0 ) { fiber *t = choose( false ); if( t ) switch_to( t ); }
         break;
      case PCT:
         if( pct_i < pct_points.size() && step_n >= pct_points[ pct_i ] )
         {
            pct_i++;
            cur->prio = pct_low--;
            fiber *t = choose( false ); if( t ) switch_to( t );
         }
         else if( since_sw > cfg.quantum )
         {
            cur->prio = pct_low--;
            fiber *t = choose( false ); if( t ) switch_to( t );
            since_sw = 0;
         }
         break;
      case PLAN:
         if( plan_i < cfg.plan.size() && step_n >= cfg.plan[ plan_i ].step )
         {
            const int want = cfg.plan[ plan_i ].target;
            plan_i++;
            collect( cand, true );
            fiber *t = nullptr;
            for( fiber *f : cand ) if( f->id == want ) t = f;
            if( t == nullptr ) t = choose( true );
            if( t ) switch_to( t );
         }
         else if( since_sw > cfg.quantum )
         {
            fiber *t = choose( true );
            if( t ) switch_to( t );
            since_sw = 0;
         }
         break;
   }
}

bool          active() { return( on ); }
int           self()   { return( cur ? cur->id : -1 ); }
std::uint64_t steps()  { return( step_n ); }
std::uint64_t now_ns() { return( vtime ); }
void          point()  { tick(); }
void          no_preempt( bool b ) { fence(); np += b ? 1 : -1; }
bool          exists( int id ) { return( id >= 0 && id < (int) fibers.size() ); }
bool          finished( int id ) { return( fibers[ id ]->done ); }

/** something got done: a hang is max_steps steps without any, or 50 times that **/
void alive() { hang_at = std::min( step_n + cfg.max_steps, 50 * cfg.max_steps ); }

static std::uint64_t epoch = 0;   /** counts what counts as progress **/

void progress()
{
   epoch++;
   for( fiber *f : fibers ) f->yields = f->ticks = 0;
}

void yield()
{
   if( ! on || stopping ) return;
   step_n++;
   vtime += cfg.tick_ns;
   if( step_n > hang_at ) { fault( "hang: step budget exhausted" ); end_all(); }
   cur->yields++;
   if( np ) return;
   if( cfg.policy == PCT ) cur->prio = pct_low--;
   fiber *t = choose( true );
   if( t ) switch_to( t );
}

static void block( std::function< bool() > pred )
{
   if( holds( pred ) ) { tick(); return; }
   cur->pred    = std::move( pred );
   cur->blocked = true;
   leave( true );
}

void wait_until( std::function< bool() > pred ) { block( std::move( pred ) ); }

/** every fiber retries what it waits for, in vain, again and again: one round
    can still be followed by a step that lets another fiber proceed **/
void quiesce( int spins, int rounds )
{
   progress();
   fiber *me = cur;
   int round = 0;
   std::uint64_t seen = epoch;
   block( [ me, spins, rounds, round, seen ]() mutable -> bool
   {
      if( seen != epoch ) { seen = epoch; round = 0; }
      for( fiber *f : fibers )
      {
         if( f == me || f->done ) continue;
         if( f->blocked ) { if( holds( f ) ) return( false ); continue; }
         if( f->sleeping ) continue;
         /** a loop that spins without giving way counts as waiting too **/
         if( f->yields < (std::uint64_t) spins && f->ticks < 4000 ) return( false );
      }
      if( ++round >= rounds ) return( true );
      bool any = false;
      for( fiber *f : fibers ) { f->yields = f->ticks = 0; if( f != me && ! f->done && ! f->blocked && ! f->sleeping ) any = true; }
      return( ! any );
   } );
}

static void sleep_ns( std::uint64_t ns )
{
   if( np ) return;
   step_n++;
   if( step_n > hang_at ) { fault( "hang: step budget exhausted" ); end_all(); }
   cur->wake     = vtime + ns;
   cur->sleeping = true;
   cur->yields++;
   leave( true );
}

static void fiber_main() noexcept
{
   fiber *me = cur;
   me->f();
   fence();
   me->f = nullptr;
   me->done = true;
   progress();
   bool all = true;
   for( fiber *f : fibers ) if( ! f->done ) all = false;
   if( all ) end_all();
   for( ;; ) leave( true );
}

static fiber *make_fiber( std::function< void() > f )
{
   fiber *n  = new fiber;
   n->id     = (int) fibers.size();
   n->f      = std::move( f );
   if( ! stack_pool.empty() ) { n->stack = stack_pool.back(); stack_pool.pop_back(); }
   else n->stack = (std::uint8_t*) mmap( nullptr, STACK, PROT_READ | PROT_WRITE,
                                         MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
   n->stack_sz = STACK;
   n->prio   = (std::int64_t)( rnd() % 1000000 ) + 1;
   /** initial frame: six callee-saved registers and the entry address,
    *  leaving rsp = 8 (mod 16) at function entry **/
   void **sp = (void**)( n->stack + STACK - 64 );
   *--sp = nullptr;                    /** fake return address **/
   *--sp = (void*) &fiber_main;
   for( int i = 0; i < 6; i++ ) *--sp = nullptr;
   n->sp = sp;
   fibers.push_back( n );
   return( n );
}

int spawn( std::function< void() > f )
{
   fence();
   const bool a = arena_on; arena_on = false;
   fiber *n = make_fiber( std::move( f ) );
   arena_on = a;
   progress();
   tick();
   return( n->id );
}

void join( int id ) { fiber *t = fibers[ id ]; block( [ t ]{ return( t->done ); } ); }

result run( const config &c, const std::function< void() > &body )
{
   if( ! arena ) arena_init();
   cfg       = c;
   if( getenv( "TSO" ) ) cfg.tso = true;
   res       = result();
   step_n    = since_sw = own_stack = 0;
   hang_at   = cfg.max_steps;
   vtime     = 1000000;
   rng       = c.seed * 0x9E3779B97F4A7C15ULL + 0x1234567; if( rng == 0 ) rng = 1;
   for( int i = 0; i < 8; i++ ) rnd();
   plan_i    = 0; pct_i = 0; pct_low = -1; np = 0;
   pct_points.clear();
   if( c.policy == PCT )
   {
      for( int i = 0; i < c.depth; i++ ) pct_points.push_back( 1 + rnd() % c.horizon );
      std::sort( pct_points.begin(), pct_points.end() );
   }
   stopping  = false;
   fiber main_f; save_eh( &main_f );
   fiber *f0 = make_fiber( body );
   cur = f0;
   restore_eh( f0 );
   on = true; arena_on = true;
   detsim_switch( &main_sp, f0->sp );
   on = false; arena_on = false;
   restore_eh( &main_f );
   for( fiber *f : fibers )
   {
      if( f->done || true ) stack_pool.push_back( f->stack );
      delete f;
   }
   res.fibers = (int) fibers.size();
   fibers.clear();
   cur = nullptr;
   res.steps = step_n;
   return( res );
}

/* ------------------------------------------------------- access checking */
static inline void access( const void *a, std::size_t n )
{
   if( ! on || stopping ) return;
   const std::uint8_t *p = (const std::uint8_t*) a;
   if( cur && p >= cur->stack && p < cur->stack + cur->stack_sz )
   {
      /** mostly private, but others may hold a reference **/
      if( ++own_stack % 64 == 0 && ! cfg.coarse ) tick();
      return;
   }
   if( in_arena( p ) && n )
   {
      const std::size_t off = p - arena, last = off + n - 1;
      const std::uint8_t s0 = shadow[ off / 8 ], s1 = shadow[ last / 8 ];
      if( s0 == 0xfd || s1 == 0xfd ) fault( "memory: use of freed memory" );
      else if( s0 <= off % 8 || s1 <= last % 8 ) fault( "memory: access outside an allocation" );
   }
   if( ! cfg.coarse ) tick();
}

/** the store follows **/
static inline void store( void *a, std::size_t n )
{
   access( a, n );
   if( ! cfg.tso || ! on || stopping || ! cur ) return;
   std::uint8_t * const p = (std::uint8_t*) a;
   if( p >= cur->stack && p < cur->stack + cur->stack_sz ) return;
   if( n > 16 || np ) { fence(); return; }
   if( cur->sb_hi - cur->sb_lo == 64 ) cur->sb_lo++;
   const unsigned i = cur->sb_hi++ % 64;
   cur->sb_a[ i ] = p; cur->sb_n[ i ] = (std::uint8_t) n;
   memcpy( cur->sb_v[ i ], p, n );
}
static inline void locked( const volatile void *a, std::size_t n ) { access( (const void*) a, n ); fence(); }

struct atomic_section { atomic_section(){ } };

void install_crash_handlers()
{
   static char alt[ 65536 ];
   stack_t ss; memset( &ss, 0, sizeof ss ); ss.ss_sp = alt; ss.ss_size = sizeof alt;
   sigaltstack( &ss, nullptr );
   struct sigaction sa; memset( &sa, 0, sizeof sa );
   sa.sa_flags   = SA_ONSTACK | SA_NODEFER;
   sa.sa_handler = []( int s )
   {
      static int again = 0;
      if( again++ ) _exit( 70 );
      on = false; arena_on = false;
      std::string w = s == SIGSEGV ? "crash: SIGSEGV" : s == SIGABRT ? "crash: SIGABRT"
                    : s == SIGALRM ? "hang: wall clock" : s == SIGFPE ? "crash: SIGFPE"
                    : s == SIGBUS ? "crash: SIGBUS" : "crash: signal " + std::to_string( s );
      if( std::current_exception() )
      {
         try { std::rethrow_exception( std::current_exception() ); }
         catch( std::exception &e ) { w += std::string( " (uncaught exception: " ) + e.what() + ")"; }
         catch( ... ) { w += " (uncaught exception)"; }
      }
      if( on_fatal ) on_fatal( w );
      fflush( nullptr );
      _exit( 70 );
   };
   for( int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM } ) sigaction( s, &sa, nullptr );
}
} /** end namespace sim **/

using namespace sim;

/* ---------------------------------------------------------- tsan entries */
extern "C" {
void __tsan_init() {}
void __tsan_func_entry( void* ) {}
void __tsan_func_exit() {}
#define RW( n ) \
 void __tsan_read##n( void *a )  { access( a, n ); } \
 void __tsan_write##n( void *a ) { store( a, n ); } \
 void __tsan_unaligned_read##n( void *a )  { access( a, n ); } \
 void __tsan_unaligned_write##n( void *a ) { store( a, n ); } \
 void __tsan_volatile_read##n( void *a )  { access( a, n ); } \
 void __tsan_volatile_write##n( void *a ) { store( a, n ); } \
 void __tsan_unaligned_volatile_read##n( void *a )  { access( a, n ); } \
 void __tsan_unaligned_volatile_write##n( void *a ) { store( a, n ); }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
void __tsan_read_range( void *a, unsigned long n )  { access( a, n ); }
void __tsan_write_range( void *a, unsigned long n ) { store( a, n ); }
void __tsan_vptr_update( void **a, void* ) { store( a, 8 ); }
void __tsan_vptr_read( void **a ) { access( a, 8 ); }
void __tsan_atomic_thread_fence( int o ) { tick(); if( o == __ATOMIC_SEQ_CST ) fence(); }
void __tsan_atomic_signal_fence( int ) {}

#define AT( N, T ) \
 T __tsan_atomic##N##_load( const volatile T *a, int ) { access( (void*)a, sizeof( T ) ); return( *a ); } \
 void __tsan_atomic##N##_store( volatile T *a, T v, int o ) \
 { if( o == __ATOMIC_SEQ_CST ) locked( a, sizeof( T ) ); else store( (void*)a, sizeof( T ) ); *a = v; } \
 T __tsan_atomic##N##_exchange( volatile T *a, T v, int ) { locked( a, sizeof( T ) ); T o = *a; *a = v; return( o ); } \
 T __tsan_atomic##N##_fetch_add( volatile T *a, T v, int ) { locked( a, sizeof( T ) ); T o = *a; *a = o + v; return( o ); } \
 T __tsan_atomic##N##_fetch_sub( volatile T *a, T v, int ) { locked( a, sizeof( T ) ); T o = *a; *a = o - v; return( o ); } \
 T __tsan_atomic##N##_fetch_and( volatile T *a, T v, int ) { locked( a, sizeof( T ) ); T o = *a; *a = o & v; return( o ); } \
 T __tsan_atomic##N##_fetch_or( volatile T *a, T v, int ) { locked( a, sizeof( T ) ); T o = *a; *a = o | v; return( o ); } \
 T __tsan_atomic##N##_fetch_xor( volatile T *a, T v, int ) { locked( a, sizeof( T ) ); T o = *a; *a = o ^ v; return( o ); } \
 T __tsan_atomic##N##_fetch_nand( volatile T *a, T v, int ) { locked( a, sizeof( T ) ); T o = *a; *a = ~( o & v ); return( o ); } \
 int __tsan_atomic##N##_compare_exchange_strong( volatile T *a, T *c, T v, int, int ) \
 { locked( a, sizeof( T ) ); if( *a == *c ) { *a = v; return( 1 ); } *c = *a; return( 0 ); } \
 int __tsan_atomic##N##_compare_exchange_weak( volatile T *a, T *c, T v, int, int ) \
 { locked( a, sizeof( T ) ); if( *a == *c ) { *a = v; return( 1 ); } *c = *a; return( 0 ); } \
 T __tsan_atomic##N##_compare_exchange_val( volatile T *a, T c, T v, int, int ) \
 { locked( a, sizeof( T ) ); T o = *a; if( o == c ) *a = v; return( o ); }
AT( 8, std::uint8_t ) AT( 16, std::uint16_t ) AT( 32, std::uint32_t ) AT( 64, std::uint64_t )

/* ----------------------------------------------------------- memory ops */
void *sim_memcpy( void *d, const void *s, size_t n )
{ if( n ) { access( s, n ); locked( d, n ); } return( memcpy( d, s, n ) ); }
void *sim_memmove( void *d, const void *s, size_t n )
{ if( n ) { access( s, n ); locked( d, n ); } return( memmove( d, s, n ) ); }
void *sim_memset( void *d, int c, size_t n )
{ if( n ) locked( d, n ); return( memset( d, c, n ) ); }

void *malloc( size_t n )
{ return( arena_on ? arena_alloc( n, 16 ) : __libc_malloc( n ) ); }
void *calloc( size_t a, size_t b )
{
   if( ! arena_on ) return( __libc_calloc( a, b ) );
   void *p = arena_alloc( a * b, 16 ); memset( p, 0, a * b ); return( p );
}
void free( void *p )
{
   if( ! p ) return;
   if( on ) fence();
   if( in_arena( p ) ) arena_free( p ); else __libc_free( p );
}
void *realloc( void *p, size_t n )
{
   if( p == nullptr ) return( malloc( n ) );
   if( in_arena( p ) || arena_on )
   {
      void *q = malloc( n );
      if( in_arena( p ) )
      {
         const size_t o = ( (chunk*)( (std::uint8_t*) p - sizeof( chunk ) ) )->size;
         memcpy( q, p, o < n ? o : n );
         free( p );
         return( q );
      }
      /** libc chunk while the arena is on: keep it in libc **/
      free( q );
      return( __libc_realloc( p, n ) );
   }
   return( __libc_realloc( p, n ) );
}
void *memalign( size_t al, size_t n )
{ return( arena_on ? arena_alloc( n, al ) : __libc_memalign( al, n ) ); }
void *aligned_alloc( size_t al, size_t n ) { return( memalign( al, n ) ); }
int posix_memalign( void **out, size_t al, size_t n )
{
   if( al % sizeof( void* ) || ( al & ( al - 1 ) ) || al == 0 ) return( EINVAL );
   *out = memalign( al, n );
   return( *out ? 0 : ENOMEM );
}
size_t malloc_usable_size( void *p )
{
   if( in_arena( p ) ) return( ( (chunk*)( (std::uint8_t*) p - sizeof( chunk ) ) )->size );
   return( 0 );
}
int madvise( void*, size_t, int ) noexcept { return( 0 ); }
int posix_madvise( void*, size_t, int ) noexcept { return( 0 ); }

/* -------------------------------------------------------------- threads */
#define REAL( name ) ( (decltype( &name )) dlsym( RTLD_NEXT, #name ) )

int pthread_create( pthread_t *t, const pthread_attr_t *at, void *(*fn)( void* ), void *arg ) noexcept
{
   if( ! on ) { static auto r = REAL( pthread_create ); return( r( t, at, fn, arg ) ); }
   fence();
   const bool a = arena_on; arena_on = false;
   fiber *n = make_fiber( [ fn, arg ]{ fn( arg ); } );
   arena_on = a;
   *t = (pthread_t)( 0x10000000UL + n->id );
   progress();
   tick();
   return( 0 );
}
static fiber *by_handle( pthread_t t )
{
   const unsigned long id = (unsigned long) t - 0x10000000UL;
   return( id < fibers.size() ? fibers[ id ] : nullptr );
}
int pthread_join( pthread_t t, void **ret )
{
   if( ! on ) { static auto r = REAL( pthread_join ); return( r( t, ret ) ); }
   fiber *f = by_handle( t );
   if( f == nullptr ) return( ESRCH );
   block( [ f ]{ return( f->done ); } );
   return( 0 );
}
int pthread_detach( pthread_t t ) noexcept
{
   if( ! on ) { static auto r = REAL( pthread_detach ); return( r( t ) ); }
   return( 0 );
}
pthread_t pthread_self() noexcept
{
   if( ! on ) { static auto r = REAL( pthread_self ); return( r() ); }
   return( (pthread_t)( 0x10000000UL + cur->id ) );
}
int sched_yield() noexcept
{
   if( ! on ) return( 0 );
   sim::yield();
   return( 0 );
}
int nanosleep( const timespec *r, timespec* )
{
   if( ! on ) { static auto f = REAL( nanosleep ); return( f( r, nullptr ) ); }
   sleep_ns( r->tv_sec * 1000000000ULL + r->tv_nsec );
   return( 0 );
}
int clock_nanosleep( clockid_t c, int fl, const timespec *r, timespec *m )
{
   if( ! on ) { static auto f = REAL( clock_nanosleep ); return( f( c, fl, r, m ) ); }
   std::uint64_t ns = r->tv_sec * 1000000000ULL + r->tv_nsec;
   if( fl & TIMER_ABSTIME ) ns = ns > vtime ? ns - vtime : 0;
   sleep_ns( ns );
   return( 0 );
}
int usleep( useconds_t u ) { timespec t{ u / 1000000, (long)( u % 1000000 ) * 1000 }; return( nanosleep( &t, nullptr ) ); }
int clock_gettime( clockid_t c, timespec *t ) noexcept
{
   if( ! on ) { static auto f = REAL( clock_gettime ); return( f( c, t ) ); }
   t->tv_sec = vtime / 1000000000ULL; t->tv_nsec = vtime % 1000000000ULL;
   return( 0 );
}

/* mutexes and condition variables: owner kept beside the object */
struct mtx { int owner = -1; int depth = 0; };
static std::map< void*, mtx > *mtxs;
static mtx &M( void *p )
{
   const bool a = arena_on; arena_on = false;
   if( ! mtxs ) mtxs = new std::map< void*, mtx >;
   mtx &r = (*mtxs)[ p ];
   arena_on = a;
   return( r );
}
int pthread_mutex_lock( pthread_mutex_t *m ) noexcept
{
   if( ! on ) return( 0 );
   fence();
   tick();
   mtx &x = M( m );
   if( x.owner == cur->id && ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE ) { x.depth++; return( 0 ); }
   if( x.owner == cur->id ) { fault( "deadlock: mutex locked again by its owner" ); return( 0 ); }
   block( [ &x ]{ return( x.owner == -1 ); } );
   x.owner = cur->id; x.depth = 1;
   return( 0 );
}
int pthread_mutex_trylock( pthread_mutex_t *m ) noexcept
{
   if( ! on ) return( 0 );
   fence();
   tick();
   mtx &x = M( m );
   if( x.owner != -1 ) return( EBUSY );
   x.owner = cur->id; x.depth = 1;
   return( 0 );
}
int pthread_mutex_unlock( pthread_mutex_t *m ) noexcept
{
   if( ! on ) return( 0 );
   fence();
   mtx &x = M( m );
   if( x.owner != cur->id ) { fault( "mutex unlocked by a thread that does not hold it" ); return( 0 ); }
   if( --x.depth == 0 ) x.owner = -1;
   progress();
   tick();
   return( 0 );
}
int pthread_mutex_destroy( pthread_mutex_t *m ) noexcept
{ if( mtxs ) { const bool a = arena_on; arena_on = false; mtxs->erase( m ); arena_on = a; } return( 0 ); }

static std::map< void*, std::uint64_t > *cvs;
int pthread_cond_wait( pthread_cond_t *c, pthread_mutex_t *m )
{
   if( ! on ) return( 0 );
   const bool a = arena_on; arena_on = false;
   if( ! cvs ) cvs = new std::map< void*, std::uint64_t >;
   std::uint64_t &gen = (*cvs)[ c ];
   arena_on = a;
   const std::uint64_t g = gen;
   pthread_mutex_unlock( m );
   block( [ &gen, g ]{ return( gen != g ); } );
   pthread_mutex_lock( m );
   return( 0 );
}
int pthread_cond_signal( pthread_cond_t *c ) noexcept
{
   if( on ) fence();
   if( on && cvs ) { auto it = cvs->find( c ); if( it != cvs->end() ) it->second++; progress(); tick(); }
   return( 0 );
}
int pthread_cond_broadcast( pthread_cond_t *c ) noexcept { return( pthread_cond_signal( c ) ); }
int pthread_setaffinity_np( pthread_t, size_t, const cpu_set_t* ) noexcept { return( 0 ); }

/* function-local static initialisation */
int __cxa_guard_acquire( long long *g )
{
   std::uint8_t *b = (std::uint8_t*) g;
   if( on ) fence();
   for( ;; )
   {
      if( b[ 0 ] ) return( 0 );
      if( ! b[ 1 ] ) { b[ 1 ] = 1; return( 1 ); }
      if( ! on ) return( 0 );
      block( [ b ]{ return( b[ 0 ] || ! b[ 1 ] ); } );
   }
}
void __cxa_guard_release( long long *g ) { if( on ) fence(); std::uint8_t *b = (std::uint8_t*) g; b[ 1 ] = 0; b[ 0 ] = 1; }
void __cxa_guard_abort( long long *g )   { ((std::uint8_t*) g)[ 1 ] = 0; }
} /** end extern C **/

/** runs are repeatable **/
#include <random>
std::random_device::result_type std::random_device::_M_getval()
{
   static std::uint64_t n = 0;
   std::uint64_t x = ( n++ + 1 ) * 0x9E3779B97F4A7C15ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL;
   return( (std::random_device::result_type) ( x >> 32 ) );
}
