// Deterministic simulation engine.
//
// A run is a pure function of its choice tape.  In search mode the tape is
// produced by a PRNG seeded from (VERIF_SEED, property, run index); in replay
// mode it is read back from a file.  Every decision a scenario needs - which
// schedule, which fault, where - is one draw() from that tape, so a failing run
// is minimised by shortening / lowering the tape and replayed exactly.
#ifndef VERIF_SIM_CORE_HPP
#define VERIF_SIM_CORE_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <stdexcept>

namespace sim {

typedef std::uint64_t u64;

// ---------------------------------------------------------------- allocation seam
// (operator new is replaced in core.cpp)
struct AllocSeam
{
    static long count;          // allocations seen while armed
    static long fail_at;        // -1: never
    static bool armed;
    static long fired;
    static long live;           // live blocks (whole process)
};
// simulated threads (conc.cpp): fresh memory, accesses made by harness code, harness code on/off
extern void (*new_hook)( void * , std::size_t );
extern void (*access_hook)( const void * , std::size_t , bool );
extern void (*untrack_hook)( int );
struct Harness { Harness() { if( untrack_hook ) untrack_hook( 1 ); } ~Harness() { if( untrack_hook ) untrack_hook( -1 ); } };
struct AllocArm      // arms allocation faults around a call into the code under test
{
    explicit AllocArm( long fail_at )
    { AllocSeam::count = 0; AllocSeam::fail_at = fail_at; AllocSeam::fired = 0; AllocSeam::armed = true; }
    ~AllocArm() { AllocSeam::armed = false; AllocSeam::fail_at = -1; }
};
struct AllocPause    // harness code running inside an armed region
{
    bool was;
    AllocPause() : was( AllocSeam::armed ) { AllocSeam::armed = false; }
    ~AllocPause() { AllocSeam::armed = was; }
};

// ---------------------------------------------------------------- violations and faults
struct Violation { std::string code , msg; };
struct Skip { };                         // generated input outside the property's quantifier

// exceptions injected into the code under test; deliberately of two kinds, one
// not derived from std::exception
struct SimFault : public std::runtime_error
{
    int id;
    explicit SimFault( int i ) : std::runtime_error( "injected fault" ) , id( i ) { }
};
struct SimFaultRaw { int id; };

class Ctx
{
public:
    // --- choices
    u64 draw( u64 n );                                  // uniform in [0,n)
    bool chance( unsigned per_mille );                  // 0 on the tape means "no"
    long range( long lo , long hi ) { return lo + (long)draw( (u64)( hi - lo + 1 ) ); }
    double unit() { return (double)draw( 1u << 20 ) / (double)( 1u << 20 ); }       // [0,1)
    double real( double lo , double hi ) { return lo + ( hi - lo ) * unit(); }
    template< class T , size_t N > T pick( const T (&a)[N] ) { return a[ draw( N ) ]; }

    // --- history
    void log( const char *tag ) { mix( tag ); if( tracing ) trace( "%s" , tag ); }
    void log( const char *tag , double a );
    void log( const char *tag , double a , double b );
    void log( const char *tag , double a , double b , double c );
    void logv( const char *tag , const double *p , size_t n );
    template< class V > void logvec( const char *tag , const V &v ) { AllocPause ap; std::vector< double > d( v.begin() , v.end() ); logv( tag , d.data() , d.size() ); }
    void note( const char *fmt , ... ) __attribute__(( format( printf , 2 , 3 ) ));   // trace only
    void fault( const char *kind ) { AllocPause ap; ++faults[ kind ]; mix( kind ); if( tracing ) trace( "FAULT %s" , kind ); }
    void cover( const char *what ) { AllocPause ap; ++probes[ what ]; }
    void elapse( double t ) { simtime += std::fabs( t ); }

    // --- checks.  A violation is remembered even if the code under test swallows the throw.
    void fail( const char *code , const char *fmt , ... ) __attribute__(( format( printf , 3 , 4 ) , noreturn ));
    void record( const char *code , const char *fmt , ... ) __attribute__(( format( printf , 3 , 4 ) ));
    void tick( u64 n = 1 );                             // progress budget
    void set_budget( u64 b ) { budget = b; }
    void nontrivial() { is_nontrivial = true; }

    // --- engine state
    bool replay = false , tracing = false , violated = false , is_nontrivial = false;
    Violation first;
    std::vector< u64 > tape;
    size_t pos = 0;
    u64 rng[2] = { 1 , 2 };
    u64 hash = 1469598103934665603ull;
    u64 ticks = 0 , budget = 3000000;
    double simtime = 0;
    std::map< std::string , u64 > faults , probes;
    std::string scenario;
    std::vector< std::string > lines;

    void seed( u64 s );
    void mix( u64 v ) { hash = ( hash ^ v ) * 1099511628211ull; hash ^= hash >> 29; }
    void mix( const char *s ) { while( *s ) mix( (u64)(unsigned char)*s++ ); mix( 257 ); }
    void mixd( double d ) { u64 u; if( d == 0 ) d = 0; if( d != d ) { mix( 0x7ff8 ); return; } std::memcpy( &u , &d , 8 ); mix( u ); }
    void trace( const char *fmt , ... ) __attribute__(( format( printf , 2 , 3 ) ));
};

#define SIM_CHECK( ctx , cond , code , ... ) do { if( !( cond ) ) { (ctx).fail( code , __VA_ARGS__ ); } } while( 0 )

struct Scenario
{
    const char *prop;
    const char *name;
    void (*fn)( Ctx & );
    unsigned weight;
};
std::vector< Scenario > &scenarios();
struct Register { Register( const char *p , const char *n , void (*f)( Ctx & ) , unsigned w = 1 ) { scenarios().push_back( Scenario{ p , n , f , w } ); } };
#define SIM_SCENARIO( prop , name , weight ) \
    static void name( sim::Ctx & ); \
    static sim::Register reg_##prop##_##name( #prop , #name , name , weight ); \
    static void name( sim::Ctx &c )
#define SIM_CAT2( a , b ) a##b
#define SIM_CAT( a , b ) SIM_CAT2( a , b )
#define SIM_REG( prop , name , weight , fn ) static sim::Register SIM_CAT( reg_ , __COUNTER__ )( #prop , name , fn , weight )

inline bool close( double a , double b , double tol )
{
    if( !( a == a ) || !( b == b ) ) return false;
    return std::fabs( a - b ) <= tol;
}
inline bool same_bits( double a , double b ) { return std::memcmp( &a , &b , 8 ) == 0 || a == b || ( a != a && b != b ); }

} // namespace sim
#endif
