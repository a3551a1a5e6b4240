// Simulated threads: fibers that are switched only where the seeded schedule says so.
//
// The code under test is compiled with -fsanitize=thread and -fopenmp, but linked with the
// runtimes in conc.cpp instead of libtsan and libgomp: every memory access of the code under
// test is a possible preemption point and is checked for happens-before races, every OpenMP
// construct (teams, work sharing, barriers, critical sections) is simulated.
#ifndef VERIF_CONC_HPP
#define VERIF_CONC_HPP
#include "core.hpp"

namespace conc {

struct Config
{
    // scheduling: switches after 1..grain tracked accesses; 0: only at explicit yields
    unsigned grain = 50;
    unsigned straggler = 0;         // thread number + 1 that is only run when nothing else can run
    unsigned max_threads = 4;       // omp_get_max_threads
    bool deliver_less = false;      // the runtime may give a team fewer threads than asked for
    unsigned sched = 0;             // schedule(runtime): 0 static, 1 dynamic, 2 guided, 3 any chunk in any order
    unsigned chunk = 1;
    bool races = true;              // off: the simulated threads stand for processes
};

void begin( sim::Ctx &c , const Config &cfg );      // arms the simulated runtimes for this run
void end();
// runs the tasks as concurrent threads without synchronisation between them
void threads( const std::vector< std::function< void() > > &tasks );
void yield();                                       // possible switch (any simulated thread)
void access( const void *p , size_t n , bool write );   // an access made by harness code on behalf of the code under test
bool in_thread();
int thread_id();                                    // -1 outside
void wait( const std::function< bool() > &ready );  // blocks the simulated thread
long now();                                         // simulated time: scheduling steps of this region, advanced while all wait

struct Untracked                                    // harness code called from the code under test
{
    Untracked(); ~Untracked();
};

struct Stats { sim::u64 switches , accesses , regions , chunks , barriers , waits , lessteams; };
extern Stats stats;

} // namespace conc
#endif
