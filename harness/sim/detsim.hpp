/**
 * detsim - deterministic thread simulator used by the conformance harnesses.
 *
 * The code under test is compiled with -fsanitize=thread but is NOT linked
 * with libtsan: detsim.cpp supplies the __tsan_* entry points and uses each
 * of them as a scheduling point.  Every std::thread the code creates becomes
 * a fiber of the one OS thread (pthread_*, sched_yield, sleeps and static
 * initialisation guards are interposed), so a run is a deterministic function
 * of the scheduling policy and its seed.  Heap memory allocated while a
 * simulation is active comes from an arena that is never reused, so that an
 * instrumented access to freed or out-of-bounds heap memory is reported.
 */
#ifndef DETSIM_HPP
#define DETSIM_HPP 1
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim
{
enum policy_t { RANDOM, PCT, PLAN };

struct preempt { std::uint64_t step; int target; };

struct config
{
   policy_t                policy     = RANDOM;
   std::uint64_t           seed       = 1;
   /** RANDOM: switch with probability 1/denom at a scheduling point */
   std::uint32_t           denom      = 8;
   /** PCT: number of priority change points, and the horizon they fall in */
   int                     depth      = 3;
   std::uint64_t           horizon    = 2000;
   /** PLAN: explicit preemptions, otherwise run-until-yield round robin */
   std::vector< preempt >  plan;
   /** a run which needs more scheduling points than this is a hang */
   std::uint64_t           max_steps  = 20000000;
   /** virtual nanoseconds per scheduling point */
   std::uint64_t           tick_ns    = 200;
   /** run-until-yield policies: force a switch after this many points */
   std::uint64_t           quantum    = 3000;
   /** only explicit points (API boundaries), not memory accesses */
   bool                    coarse     = false;
   /** stores of a thread may be seen by others later than its own loads that
    *  follow (store buffers); none overtakes another.  Mutexes, atomic updates,
    *  fences, yielding, sleeping and explicit points let all arrive */
   bool                    tso        = false;
};

struct result
{
   bool           ok        = true;      /** false: hang, crash or memory error */
   std::string    what;                  /** "", "hang", "deadlock", "memory: ..." */
   std::uint64_t  steps     = 0;
   std::uint64_t  switches  = 0;
   int            fibers    = 0;
};

/** run body as fiber 0 until every fiber it created has finished */
result run( const config &cfg, const std::function< void() > &body );

bool          active();
int           self();
std::uint64_t steps();
/** explicit scheduling point */
void          point();
/** scheduling point that prefers another fiber */
void          yield();
/** spawn a fiber directly; join it */
int           spawn( std::function< void() > f );
void          join( int id );
/** block the current fiber until pred() holds (pred evaluated by scheduler) */
void          wait_until( std::function< bool() > pred );
/** true when every other live fiber is waiting (spun without progress) */
/** something got done: the budget of max_steps starts anew */
void          alive();
/** mark progress: used for quiescence detection */
void          progress();
/** run all other fibers until each is finished, blocked or has yielded
 *  `spins' times in a row without a progress() call in between */
void          quiesce( int spins = 2, int rounds = 8 );
bool          finished( int id );
/** is there a fiber of that number? **/
bool          exists( int id );
/** end the run now, abandoning every fiber; never returns */
void          finish() __attribute__(( noreturn ));
/** suppress scheduling points (nestable) */
void          no_preempt( bool on );
/** record a violation found by the simulator itself */
void          fault( const std::string &what );
/** called by the crash handlers to dump state before the process dies */
extern std::function< void( const std::string & ) > on_fatal;
/** number of live arena chunks and bytes */
std::size_t   live_chunks();
/** the next allocation starts a block of that size: objects built alike have addresses alike */
void          block( std::size_t bytes );
bool          is_freed( const void *p );
/** number of context switches in the quiescent sense */
std::uint64_t now_ns();
void          install_crash_handlers();
} /** end namespace sim **/
#endif
