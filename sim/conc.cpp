// Fibers, race detector (replaces libtsan) and OpenMP runtime (replaces libgomp).  Compiled without instrumentation.
#include "conc.hpp"
#include <ucontext.h>
#include <link.h>
#include <sys/mman.h>
#include <exception>
#include <algorithm>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

namespace conc {
using sim::u64;
typedef std::uint32_t u32;

Stats stats;
static const unsigned MAXT = 8;
static const size_t STACK = 512 * 1024;

struct Team;
struct Fiber
{
    ucontext_t ctx; char *stack = 0;
    void *eh[2] = { 0 , 0 };
    std::vector< char > tls;
    int untracked = 0;
    bool done = false , blocked = false;
    const void *waits_for = 0;
    std::function< bool() > ready;
    std::function< void() > fn;
    unsigned tid = 0;
    unsigned nest = 0;              // inside a nested (one thread) parallel region
    unsigned ws = 0;                // work-sharing constructs met so far
    u64 ws_lo = 0 , ws_hi = 0;
    std::string error;
};
struct Ws;

static sim::Ctx *C = 0;
static Config cfg;
static bool active = false;         // a run is armed
static bool inregion = false;       // fibers are running
static bool inhook = false;
static Fiber fib[ MAXT ];
static unsigned nfib = 0;
static Fiber *cur = 0;
static ucontext_t main_ctx;
static void *main_eh[2];
static std::vector< char > main_tls;
static int main_untracked = 0;
static long countdown = 0;
static std::string abort_code , abort_msg;
static u64 region_accesses = 0;
static long steps = 0;
static const long MAX_WAIT = 200;   // simulated time that may pass without any thread being able to run

// ---------------------------------------------------------------- thread-local storage of the program, per fiber
static char *tls_base = 0; static size_t tls_size = 0; static const char *tls_init = 0; static size_t tls_filesz = 0;
static int find_tls( struct dl_phdr_info *i , size_t , void * )
{
    for( int k = 0 ; k < i->dlpi_phnum ; ++k )
        if( i->dlpi_phdr[k].p_type == PT_TLS )
        {
            size_t al = i->dlpi_phdr[k].p_align ? i->dlpi_phdr[k].p_align : 1;
            tls_size = i->dlpi_phdr[k].p_memsz; tls_filesz = i->dlpi_phdr[k].p_filesz;
            tls_init = (const char *)( i->dlpi_addr + i->dlpi_phdr[k].p_vaddr );
            tls_base = (char *)__builtin_thread_pointer() - ( ( tls_size + al - 1 ) / al * al );
        }
    return 1;       // the first object is the program itself
}

// ---------------------------------------------------------------- race detector
struct Cell { u64 key; u32 gen; u32 w[ MAXT ] , r[ MAXT ]; unsigned char wm[ MAXT ] , rm[ MAXT ]; };
static std::vector< Cell > tab;
static u32 gen = 0; static size_t used = 0;
static u32 vc[ MAXT ][ MAXT ];
struct Lock { u32 vc[ MAXT ]; bool held; };
static std::map< const void * , Lock > locks;

static Cell &cell( u64 key )
{
    if( tab.empty() ) { tab.resize( 1u << 14 ); for( auto &c : tab ) c.gen = 0; }
    if( used * 2 > tab.size() )
    {
        std::vector< Cell > old; old.swap( tab );
        tab.resize( old.size() * 2 ); for( auto &c : tab ) c.gen = 0;
        for( auto &o : old ) if( o.gen == gen )
        {
            size_t i = ( o.key * 0x9e3779b97f4a7c15ull ) >> 20 & ( tab.size() - 1 );
            while( tab[i].gen == gen ) i = ( i + 1 ) & ( tab.size() - 1 );
            tab[i] = o;
        }
    }
    size_t m = tab.size() - 1 , i = ( key * 0x9e3779b97f4a7c15ull ) >> 20 & m;
    while( tab[i].gen == gen && tab[i].key != key ) i = ( i + 1 ) & m;
    if( tab[i].gen != gen ) { std::memset( &tab[i] , 0 , sizeof( Cell ) ); tab[i].key = key; tab[i].gen = gen; ++used; }
    return tab[i];
}
static void clear_shadow() { ++gen; used = 0; }
static void forget( const void *p , size_t n )
{
    if( !inregion ) return;
    for( u64 k = (u64)p >> 3 ; k <= ( (u64)p + n - 1 ) >> 3 ; ++k )
    {
        Cell &c = cell( k );
        std::memset( c.w , 0 , sizeof c.w ); std::memset( c.r , 0 , sizeof c.r ); std::memset( c.wm , 0 , sizeof c.wm ); std::memset( c.rm , 0 , sizeof c.rm );
    }
}
static void on_new( void *p , std::size_t n ) { if( inregion && n && !inhook ) { inhook = true; forget( p , n ); inhook = false; } }

static void check( const void *p , size_t n , bool write )
{
    if( !cfg.races ) return;
    if( (char *)p >= tls_base && (char *)p < tls_base + tls_size ) return;
    unsigned me = cur->tid;
    u64 a = (u64)p , e = a + n;
    while( a < e )
    {
        u64 k = a >> 3 , b = std::min( e , ( k + 1 ) << 3 );
        unsigned char m = (unsigned char)( ( ( 1u << ( b - a ) ) - 1 ) << ( a & 7 ) );
        Cell &c = cell( k );
        for( unsigned t = 0 ; t < nfib ; ++t )
        {
            if( t == me ) continue;
            bool ww = ( c.wm[t] & m ) && c.w[t] > vc[me][t];
            bool rw = write && ( c.rm[t] & m ) && c.r[t] > vc[me][t];
            if( ( ww || rw ) && abort_code.empty() )
            {
                abort_code = "data-race";
                char s[200]; snprintf( s , sizeof s , "thread %u %s memory that thread %u %s without any synchronisation" , me , write ? "writes" : "reads" , t , ww ? "wrote" : "read" );
                abort_msg = s;
            }
        }
        if( write ) { if( c.w[me] != vc[me][me] ) { c.w[me] = vc[me][me]; c.wm[me] = 0; } c.wm[me] |= m; }
        else { if( c.r[me] != vc[me][me] ) { c.r[me] = vc[me][me]; c.rm[me] = 0; } c.rm[me] |= m; }
        a = b;
    }
}
static void acquire( const void *l ) { auto i = locks.find( l ); if( i == locks.end() ) return; for( unsigned t = 0 ; t < nfib ; ++t ) vc[cur->tid][t] = std::max( vc[cur->tid][t] , i->second.vc[t] ); }
static void release( const void *l )
{
    auto i = locks.find( l );
    if( i == locks.end() ) { Lock n; std::memset( &n , 0 , sizeof n ); i = locks.insert( std::make_pair( l , n ) ).first; }
    for( unsigned t = 0 ; t < nfib ; ++t ) i->second.vc[t] = std::max( i->second.vc[t] , vc[cur->tid][t] );
    ++vc[cur->tid][cur->tid];
}

// ---------------------------------------------------------------- fibers
static void save_state( void **eh , std::vector< char > &tls )
{
    std::memcpy( eh , __cxxabiv1::__cxa_get_globals() , 16 );
    if( tls_size ) { tls.resize( tls_size ); std::memcpy( tls.data() , tls_base , tls_size ); }
}
static void load_state( void **eh , std::vector< char > &tls )
{
    std::memcpy( (void *)__cxxabiv1::__cxa_get_globals() , eh , 16 );
    if( tls_size ) std::memcpy( tls_base , tls.data() , tls_size );
}
static void to_main()           // fiber -> scheduler
{
    Fiber *f = cur;
    save_state( f->eh , f->tls );
    load_state( main_eh , main_tls );
    cur = 0;
    swapcontext( &f->ctx , &main_ctx );
}
static void entry( unsigned i )
{
    Fiber &f = fib[i];
    inhook = false;
    try { f.fn(); }
    catch( const sim::Violation & ) { }             // recorded in the context
    catch( const std::exception &e ) { f.error = e.what(); }
    catch( ... ) { f.error = "an exception that is not a std::exception"; }
    inhook = true;
    f.done = true;
    to_main();
}
static void switch_now()        // called inside a hook of the running fiber
{
    ++stats.switches;
    if( region_accesses > 4000000 && abort_code.empty() ) { abort_code = "no-progress"; abort_msg = "more than 4000000 memory accesses in one parallel region"; }
    to_main();
}
static void next_countdown() { countdown = cfg.grain ? 1 + (long)C->draw( cfg.grain ) : -1; }

static void run_fibers( std::vector< std::function< void() > > fns )        // records violations, throws nothing (OpenMP regions are compiled as non-throwing)
{
    // fork
    nfib = (unsigned)fns.size();
    clear_shadow(); locks.clear(); abort_code.clear(); region_accesses = 0; steps = 0; long idle = 0;
    for( unsigned i = 0 ; i < nfib ; ++i )
    {
        Fiber &f = fib[i];
        if( !f.stack ) f.stack = (char *)mmap( 0 , STACK , PROT_READ | PROT_WRITE , MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE , -1 , 0 );
        getcontext( &f.ctx );
        f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = 0;
        makecontext( &f.ctx , (void (*)())entry , 1 , i );
        f.eh[0] = f.eh[1] = 0; f.untracked = 0; f.done = f.blocked = false; f.nest = 0; f.waits_for = 0; f.ready = std::function< bool() >(); f.fn = fns[i]; f.tid = i; f.ws = 0; f.ws_lo = f.ws_hi = 0; f.error.clear();
        f.tls.assign( tls_size , 0 ); if( tls_size ) std::memcpy( f.tls.data() , tls_init , tls_filesz );
        for( unsigned t = 0 ; t < MAXT ; ++t ) vc[i][t] = t == i ? 1 : 0;
    }
    inregion = true; next_countdown();
    std::string deadlock;
    for(;;)
    {
        unsigned ready[ MAXT ] , n = 0 , left = 0;
        ++steps;
        for( unsigned i = 0 ; i < nfib ; ++i ) if( !fib[i].done && fib[i].blocked && fib[i].ready && fib[i].ready() ) { fib[i].blocked = false; fib[i].ready = std::function< bool() >(); }
        for( unsigned i = 0 ; i < nfib ; ++i ) if( !fib[i].done ) { ++left; if( !fib[i].blocked ) ready[n++] = i; }
        if( !left || C->violated || !abort_code.empty() ) break;
        if( !n ) { bool timed = false; for( unsigned i = 0 ; i < nfib ; ++i ) if( !fib[i].done && fib[i].ready ) timed = true; if( timed && ++idle < MAX_WAIT ) continue; }
        else idle = 0;
        if( !n ) { abort_code = "deadlock"; abort_msg = "every thread waits"; break; }
        if( n > 1 && cfg.straggler ) { unsigned m = 0; for( unsigned i = 0 ; i < n ; ++i ) if( ready[i] != cfg.straggler - 1 ) ready[m++] = ready[i]; n = m; }
        Fiber &f = fib[ ready[ n > 1 ? C->draw( n ) : 0 ] ];
        next_countdown();
        C->mix( f.tid + 1000 );
        if( C->tracing ) C->trace( "run thread %u (after %llu accesses)" , f.tid , (unsigned long long)region_accesses );
        save_state( main_eh , main_tls );
        load_state( f.eh , f.tls );
        cur = &f;
        bool h = inhook;
        inhook = true;              // the fiber leaves its hook itself
        swapcontext( &main_ctx , &f.ctx );
        inhook = h;
    }
    inregion = false; nfib = 0; cur = 0;
    std::string err; for( unsigned i = 0 ; i < fns.size() ; ++i ) { if( err.empty() ) err = fib[i].error; fib[i].fn = std::function< void() >(); }
    if( !abort_code.empty() ) { C->record( abort_code.c_str() , "%s" , abort_msg.c_str() ); abort_code.clear(); }
    if( !err.empty() ) C->record( "exception-in-thread" , "a simulated thread ended with an exception: %s" , err.c_str() );
}

static inline void event( bool point )
{
    ++region_accesses;
    if( countdown > 0 && --countdown == 0 ) { switch_now(); }
    (void)point;
}
static inline bool on() { return inregion && !inhook && cur && cur->untracked == 0; }
struct Hook { Hook() { inhook = true; } ~Hook() { inhook = false; } };
static inline void mem( const void *p , size_t n , bool w )
{
    if( !on() ) return;
    Hook h;
    ++stats.accesses;
    event( true );                  // preemption before the access
    check( p , n , w );
    if( !abort_code.empty() ) to_main();
}
static inline void atomic_op( const void *p )
{
    if( !on() ) return;
    Hook h;
    event( true ); acquire( p ); release( p );
}

void begin( sim::Ctx &c , const Config &g )
{
    static bool once = false;
    if( !once ) { dl_iterate_phdr( find_tls , 0 ); sim::new_hook = on_new; sim::access_hook = access; sim::untrack_hook = []( int d ) { if( cur ) cur->untracked += d; }; once = true; }
    C = &c; cfg = g; active = true; inregion = false; inhook = false; cur = 0; nfib = 0; main_untracked = 0;
    std::memset( &stats , 0 , sizeof stats );
}
void end() { active = false; }
void threads( const std::vector< std::function< void() > > &t ) { ++stats.regions; run_fibers( t ); if( C->violated ) throw sim::Violation( C->first ); }
void yield() { if( inregion && cur && !inhook ) { Hook h; switch_now(); } }
void access( const void *p , size_t n , bool w )
{
    if( !inregion || inhook || !cur ) return;
    Hook h; event( true ); check( p , n , w );
    if( !abort_code.empty() ) to_main();
}
int thread_id() { return inregion && cur ? (int)cur->tid : -1; }
long now() { return steps; }
void wait( const std::function< bool() > &ready )
{
    if( !inregion || !cur || ready() ) return;
    Hook h;
    ++stats.waits;
    cur->blocked = true; cur->ready = ready; to_main();
}
bool in_thread() { return inregion && cur; }
Untracked::Untracked() { if( cur ) ++cur->untracked; }
Untracked::~Untracked() { if( cur ) --cur->untracked; }

// ---------------------------------------------------------------- OpenMP
struct Ws { bool ready = false; u64 lo = 0 , hi = 0; bool down = false; u64 step = 1; unsigned kind = 0; u64 chunk = 1; std::vector< std::pair< u64 , u64 > > todo[ MAXT + 1 ]; };  // chunks of iteration numbers; [MAXT]: shared
static std::map< unsigned , Ws > work;
static unsigned team = 1 , at_barrier = 0 , singles[ 4096 ];
static u32 bar_vc[ MAXT ];

static void region( void (*fn)( void * ) , void *data , unsigned asked )
{
    if( !active || inregion )       // nested or outside a run: one thread
    {
        struct Nest { Fiber *f; Nest() : f( cur ) { if( f ) ++f->nest; } ~Nest() { if( f ) --f->nest; } } nest;
        fn( data ); return;
    }
    if( C->violated ) return;
    unsigned n = asked ? asked : cfg.max_threads;
    if( n > MAXT ) n = MAXT;
    if( cfg.deliver_less && n > 1 ) { unsigned m = n - (unsigned)C->draw( n ); if( m < n ) { ++stats.lessteams; C->fault( "fewer-threads" ); n = m; } }
    ++stats.regions;
    work.clear(); team = n; at_barrier = 0; std::memset( singles , 0 , sizeof singles );
    std::vector< std::function< void() > > f( n , [fn,data] { fn( data ); } );
    struct Reset { ~Reset() { team = 1; } } reset;
    run_fibers( f );
}
static inline bool shared() { return inregion && cur && !cur->nest; }
static void barrier()
{
    if( !shared() || team < 2 ) return;
    Hook h;
    ++stats.barriers;
    ++at_barrier;
    if( at_barrier == team )
    {
        u32 m[ MAXT ] = { 0 };
        for( unsigned i = 0 ; i < team ; ++i ) for( unsigned t = 0 ; t < team ; ++t ) m[t] = std::max( m[t] , vc[i][t] );
        for( unsigned i = 0 ; i < team ; ++i ) { std::memcpy( vc[i] , m , sizeof m ); ++vc[i][i]; fib[i].blocked = false; }
        at_barrier = 0;
        switch_now();
    }
    else { cur->blocked = true; to_main(); }
}
static void build_ws( Ws &w , u64 count , unsigned kind , u64 chunk )
{
    w.ready = true;
    unsigned n = cur && !cur->nest ? team : 1;
    std::vector< std::pair< u64 , u64 > > c;
    if( kind == 0 && chunk == 0 )           // static, one block per thread
    {
        u64 q = count / n , r = count % n , a = 0;
        for( unsigned t = 0 ; t < n ; ++t ) { u64 k = q + ( t < r ? 1 : 0 ); if( k ) w.todo[t].push_back( std::make_pair( a , a + k ) ); a += k; }
        return;
    }
    if( chunk == 0 ) chunk = 1;
    u64 a = 0;
    while( a < count )
    {
        u64 k = chunk;
        if( kind == 2 ) k = std::max< u64 >( chunk , ( count - a ) / ( 2 * n ) );
        u64 b = std::min( count , a + k ); c.push_back( std::make_pair( a , b ) ); a = b;
    }
    if( kind == 0 ) { for( size_t i = 0 ; i < c.size() ; ++i ) w.todo[ i % n ].push_back( c[i] ); return; }
    if( kind == 3 ) for( size_t i = c.size() ; i > 1 ; --i ) std::swap( c[i-1] , c[ C->draw( i ) ] );     // chunks in any order
    w.todo[ MAXT ] = c;
}
// the i-th work-sharing loop of the region for this thread; chunks are handed out one by one
static bool ws_next( u64 &a , u64 &b , Ws &w )
{
    unsigned t = shared() ? cur->tid : 0;
    ++stats.chunks;
    std::vector< std::pair< u64 , u64 > > &own = w.todo[t] , &all = w.todo[ MAXT ];
    std::vector< std::pair< u64 , u64 > > &q = own.empty() ? all : own;
    if( q.empty() ) return false;
    a = q.front().first; b = q.front().second; q.erase( q.begin() );
    C->mix( a * 64 + t );
    return true;
}
static Ws serial_ws , nested_ws[ MAXT ];
static Ws &ws_of() { return shared() ? work[ cur->ws ] : cur ? nested_ws[ cur->tid ] : serial_ws; }
template< class T > static bool loop_start( bool up , T start , T end , T incr , unsigned kind , u64 chunk , T *is , T *ie )
{
    bool h = inhook; inhook = true;
    if( shared() ) ++cur->ws;
    Ws &w = ws_of();
    if( !shared() ) w = Ws();
    if( !w.ready )
    {
        u64 n = 0;
        if( up ) n = start < end ? ( (u64)end - (u64)start + (u64)incr - 1 ) / (u64)incr : 0;
        else n = start > end ? ( (u64)start - (u64)end + ( (u64)0 - (u64)incr ) - 1 ) / ( (u64)0 - (u64)incr ) : 0;
        w.lo = (u64)start; w.hi = (u64)end; w.step = (u64)incr; w.down = !up;
        build_ws( w , n , shared() ? kind : 0 , shared() ? chunk : 0 );
    }
    if( inregion && cur ) { switch_now(); }
    u64 a , b; bool r = ws_next( a , b , w );
    if( r ) { *is = (T)( w.lo + a * w.step ); *ie = (T)( w.lo + b * w.step ); }
    inhook = h;
    return r;
}
template< class T > static bool loop_next( T *is , T *ie )
{
    bool h = inhook; inhook = true;
    if( inregion && cur ) { switch_now(); }
    Ws &w = ws_of();
    u64 a , b; bool r = ws_next( a , b , w );
    if( r ) { *is = (T)( w.lo + a * w.step ); *ie = (T)( w.lo + b * w.step ); }
    inhook = h;
    return r;
}
static void lock( const void *l )
{
    if( !inregion || !cur ) return;
    Hook h;
    switch_now();
    for(;;)
    {
        Lock &k = locks[ l ];
        if( !k.held ) { k.held = true; acquire( l ); return; }
        ++stats.waits;
        cur->blocked = true; cur->waits_for = l; to_main();
    }
}
static void unlock( const void *l )
{
    if( !inregion || !cur ) return;
    Hook h;
    locks[ l ].held = false; release( l );
    for( unsigned i = 0 ; i < nfib ; ++i ) if( fib[i].blocked && fib[i].waits_for == l ) { fib[i].blocked = false; fib[i].waits_for = 0; }
    switch_now();
}
static unsigned runtime_kind() { return cfg.sched; }
static u64 runtime_chunk() { return cfg.chunk; }
} // namespace conc

using namespace conc;
typedef unsigned long long ull;
static char critical_lock , atomic_lock;

extern "C" {
// --- teams
void GOMP_parallel( void (*fn)( void * ) , void *d , unsigned n , unsigned ) { region( fn , d , n ); }
#define PARLOOP( name , kind , chunkexpr , CHUNKARG ) \
    void name( void (*fn)( void * ) , void *d , unsigned n , long s , long e , long i CHUNKARG , unsigned ) \
    { struct A { void (*fn)( void * ); void *d; long s , e , i; u64 chunk; } a = { fn , d , s , e , i , (u64)( chunkexpr ) }; \
      region( []( void *p ) { A *a = (A *)p; if( shared() ) { cur->ws++; Ws &w = ws_of(); if( !w.ready ) { u64 n = a->i > 0 ? ( a->s < a->e ? ( a->e - a->s + a->i - 1 ) / a->i : 0 ) : ( a->s > a->e ? ( a->s - a->e - a->i - 1 ) / -a->i : 0 ); w.lo = (u64)a->s; w.step = (u64)a->i; build_ws( w , n , kind , a->chunk ); } } else { Ws &w = ws_of(); w = Ws(); w.lo = (u64)a->s; w.step = (u64)a->i; build_ws( w , a->i > 0 ? ( a->s < a->e ? ( a->e - a->s + a->i - 1 ) / a->i : 0 ) : ( a->s > a->e ? ( a->s - a->e - a->i - 1 ) / -a->i : 0 ) , 0 , 0 ); } a->fn( a->d ); } , &a , n ); }
#define NOARG
#define CARG , long ch
PARLOOP( GOMP_parallel_loop_static , 0 , ch , CARG )
PARLOOP( GOMP_parallel_loop_dynamic , 1 , ch , CARG )
PARLOOP( GOMP_parallel_loop_guided , 2 , ch , CARG )
PARLOOP( GOMP_parallel_loop_nonmonotonic_dynamic , 3 , ch , CARG )
PARLOOP( GOMP_parallel_loop_nonmonotonic_guided , 2 , ch , CARG )
PARLOOP( GOMP_parallel_loop_runtime , runtime_kind() , runtime_chunk() , NOARG )
PARLOOP( GOMP_parallel_loop_nonmonotonic_runtime , runtime_kind() , runtime_chunk() , NOARG )
PARLOOP( GOMP_parallel_loop_maybe_nonmonotonic_runtime , runtime_kind() , runtime_chunk() , NOARG )

// --- work sharing
#define LOOPC( name , kind ) \
    bool GOMP_loop_##name##_start( long s , long e , long i , long ch , long *a , long *b ) { return loop_start< long >( i > 0 , s , e , i , kind , (u64)ch , a , b ); } \
    bool GOMP_loop_##name##_next( long *a , long *b ) { return loop_next< long >( a , b ); } \
    bool GOMP_loop_ull_##name##_start( bool up , ull s , ull e , ull i , ull ch , ull *a , ull *b ) { return loop_start< ull >( up , s , e , i , kind , (u64)ch , a , b ); } \
    bool GOMP_loop_ull_##name##_next( ull *a , ull *b ) { return loop_next< ull >( a , b ); }
#define LOOPR( name ) \
    bool GOMP_loop_##name##_start( long s , long e , long i , long *a , long *b ) { return loop_start< long >( i > 0 , s , e , i , runtime_kind() , runtime_chunk() , a , b ); } \
    bool GOMP_loop_##name##_next( long *a , long *b ) { return loop_next< long >( a , b ); } \
    bool GOMP_loop_ull_##name##_start( bool up , ull s , ull e , ull i , ull *a , ull *b ) { return loop_start< ull >( up , s , e , i , runtime_kind() , runtime_chunk() , a , b ); } \
    bool GOMP_loop_ull_##name##_next( ull *a , ull *b ) { return loop_next< ull >( a , b ); }
LOOPC( static , 0 ) LOOPC( dynamic , 1 ) LOOPC( guided , 2 ) LOOPC( nonmonotonic_dynamic , 3 ) LOOPC( nonmonotonic_guided , 2 )
LOOPR( runtime ) LOOPR( nonmonotonic_runtime ) LOOPR( maybe_nonmonotonic_runtime )
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() { }
bool GOMP_loop_end_cancel() { barrier(); return false; }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_single_start() { if( !shared() ) return true; bool h = inhook; inhook = true; unsigned k = ++cur->ws % 4096; bool r = !singles[k]; singles[k] = 1; inhook = h; return r; }
unsigned GOMP_sections_start( unsigned n ) { ull a , b; return loop_start< ull >( true , 1 , n + 1 , 1 , 1 , 1 , &a , &b ) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { ull a , b; return loop_next< ull >( &a , &b ) ? (unsigned)a : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() { }
void GOMP_critical_start() { lock( &critical_lock ); }
void GOMP_critical_end() { unlock( &critical_lock ); }
void GOMP_critical_name_start( void **p ) { lock( p ); }
void GOMP_critical_name_end( void **p ) { unlock( p ); }
void GOMP_atomic_start() { lock( &atomic_lock ); }
void GOMP_atomic_end() { unlock( &atomic_lock ); }
void GOMP_ordered_start() { } void GOMP_ordered_end() { }
void GOMP_taskwait() { }
void GOMP_task( void (*fn)( void * ) , void *data , void (*cpy)( void * , void * ) , long size , long align , bool , unsigned , void ** , int )
{   // executed at once, which every OpenMP runtime may do
    if( !cpy ) { fn( data ); return; }
    std::vector< char > buf( (size_t)( size + align ) ); char *p = (char *)( ( (u64)buf.data() + (u64)align - 1 ) / (u64)align * (u64)align );
    cpy( p , data ); fn( p );
}
void GOMP_taskgroup_start() { } void GOMP_taskgroup_end() { }
// --- queries
int omp_get_thread_num() { return shared() ? (int)cur->tid : 0; }
int omp_get_num_threads() { return shared() ? (int)team : 1; }
int omp_get_max_threads() { return active ? (int)cfg.max_threads : 1; }
int omp_get_num_procs() { return active ? (int)cfg.max_threads : 1; }
int omp_in_parallel() { return inregion && team > 1; }
void omp_set_num_threads( int n ) { if( active && n > 0 ) cfg.max_threads = (unsigned)n > MAXT ? MAXT : (unsigned)n; }
void omp_set_schedule( int k , int ch ) { cfg.sched = k == 1 ? 0 : k == 2 ? 1 : 2; cfg.chunk = ch > 0 ? (unsigned)ch : 0; }
void omp_set_dynamic( int ) { } int omp_get_dynamic() { return 0; } void omp_set_nested( int ) { } int omp_get_nested() { return 0; }
int omp_get_level() { return inregion ? 1 : 0; } int omp_get_thread_limit() { return (int)MAXT; }
double omp_get_wtime() { return active ? (double)stats.accesses * 1e-9 : 0; }
void omp_init_lock( void *l ) { } void omp_destroy_lock( void * ) { } void omp_set_lock( void *l ) { lock( l ); } void omp_unset_lock( void *l ) { unlock( l ); }

// --- memory accesses of the instrumented code
void __tsan_init() { }
void __tsan_func_entry( void * ) { } void __tsan_func_exit() { }
#define RW( n ) void __tsan_read##n( void *p ) { mem( p , n , false ); } void __tsan_write##n( void *p ) { mem( p , n , true ); } \
    void __tsan_unaligned_read##n( void *p ) { mem( p , n , false ); } void __tsan_unaligned_write##n( void *p ) { mem( p , n , true ); } \
    void __tsan_volatile_read##n( void *p ) { mem( p , n , false ); } void __tsan_volatile_write##n( void *p ) { mem( p , n , true ); } \
    void __tsan_read##n##_pc( void *p , void * ) { mem( p , n , false ); } void __tsan_write##n##_pc( void *p , void * ) { mem( p , n , true ); }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
void __tsan_read_range( void *p , unsigned long n ) { mem( p , n , false ); }
void __tsan_write_range( void *p , unsigned long n ) { mem( p , n , true ); }
void __tsan_vptr_update( void **p , void * ) { mem( p , 8 , true ); }
void __tsan_vptr_read( void **p ) { mem( p , 8 , false ); }
#define AT( b , T ) \
    T __tsan_atomic##b##_load( const volatile T *p , int ) { atomic_op( (const void *)p ); return __atomic_load_n( p , 5 ); } \
    void __tsan_atomic##b##_store( volatile T *p , T v , int ) { atomic_op( (const void *)p ); __atomic_store_n( p , v , 5 ); } \
    T __tsan_atomic##b##_exchange( volatile T *p , T v , int ) { atomic_op( (const void *)p ); return __atomic_exchange_n( p , v , 5 ); } \
    T __tsan_atomic##b##_fetch_add( volatile T *p , T v , int ) { atomic_op( (const void *)p ); return __atomic_fetch_add( p , v , 5 ); } \
    T __tsan_atomic##b##_fetch_sub( volatile T *p , T v , int ) { atomic_op( (const void *)p ); return __atomic_fetch_sub( p , v , 5 ); } \
    T __tsan_atomic##b##_fetch_and( volatile T *p , T v , int ) { atomic_op( (const void *)p ); return __atomic_fetch_and( p , v , 5 ); } \
    T __tsan_atomic##b##_fetch_or( volatile T *p , T v , int ) { atomic_op( (const void *)p ); return __atomic_fetch_or( p , v , 5 ); } \
    T __tsan_atomic##b##_fetch_xor( volatile T *p , T v , int ) { atomic_op( (const void *)p ); return __atomic_fetch_xor( p , v , 5 ); } \
    int __tsan_atomic##b##_compare_exchange_strong( volatile T *p , T *e , T v , int , int ) { atomic_op( (const void *)p ); return __atomic_compare_exchange_n( p , e , v , false , 5 , 5 ); } \
    int __tsan_atomic##b##_compare_exchange_weak( volatile T *p , T *e , T v , int , int ) { atomic_op( (const void *)p ); return __atomic_compare_exchange_n( p , e , v , true , 5 , 5 ); } \
    T __tsan_atomic##b##_compare_exchange_val( volatile T *p , T e , T v , int , int ) { atomic_op( (const void *)p ); __atomic_compare_exchange_n( p , &e , v , false , 5 , 5 ); return e; }
AT( 8 , unsigned char ) AT( 16 , unsigned short ) AT( 32 , unsigned int ) AT( 64 , ull )
void __tsan_atomic_thread_fence( int ) { } void __tsan_atomic_signal_fence( int ) { }

// --- library calls of the instrumented code that touch memory (linked with --wrap)
void *__real_memcpy( void * , const void * , size_t ); void *__real_memmove( void * , const void * , size_t ); void *__real_memset( void * , int , size_t );
void *__wrap_memcpy( void *d , const void *s , size_t n ) { if( n ) { mem( s , n , false ); mem( d , n , true ); } return __real_memcpy( d , s , n ); }
void *__wrap_memmove( void *d , const void *s , size_t n ) { if( n ) { mem( s , n , false ); mem( d , n , true ); } return __real_memmove( d , s , n ); }
void *__wrap_memset( void *d , int v , size_t n ) { if( n ) mem( d , n , true ); return __real_memset( d , v , n ); }
void *__real___cxa_allocate_exception( size_t ) noexcept;
void *__wrap___cxa_allocate_exception( size_t n ) noexcept { void *p = __real___cxa_allocate_exception( n ); on_new( p , n ); return p; }
int __real___cxa_guard_acquire( void * ); void __real___cxa_guard_release( void * ); void __real___cxa_guard_abort( void * );
int __wrap___cxa_guard_acquire( void *g )
{   // initialisation of a function-local static: no other thread gets in between
    if( inregion && cur && !inhook ) { Hook h; acquire( g ); }
    int r = __real___cxa_guard_acquire( g );
    if( r && cur ) ++cur->untracked;
    return r;
}
void __wrap___cxa_guard_release( void *g ) { __real___cxa_guard_release( g ); if( cur ) { --cur->untracked; if( inregion && !inhook ) { Hook h; release( g ); } } }
void __wrap___cxa_guard_abort( void *g ) { __real___cxa_guard_abort( g ); if( cur ) --cur->untracked; }
} // extern "C"
