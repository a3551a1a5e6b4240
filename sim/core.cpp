#include "core.hpp"
#include <new>
#include <algorithm>
#include <unordered_set>
#include <csignal>
#include <ctime>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <typeinfo>
#include <exception>

namespace sim {

long AllocSeam::count = 0;
long AllocSeam::fail_at = -1;
bool AllocSeam::armed = false;
long AllocSeam::fired = 0;
long AllocSeam::live = 0;

void (*new_hook)( void * , std::size_t ) = 0;
void (*access_hook)( const void * , std::size_t , bool ) = 0;
void (*untrack_hook)( int ) = 0;

static void *seam_alloc( std::size_t n )
{
    if( AllocSeam::armed )
    {
        long k = AllocSeam::count++;
        if( k == AllocSeam::fail_at ) { ++AllocSeam::fired; throw std::bad_alloc(); }
    }
    void *p = std::malloc( n ? n : 1 );
    if( !p ) throw std::bad_alloc();
    // fresh memory holds a recognisable NaN so that a read before the first write
    // has the same, visible effect in every run
    u64 *q = (u64*)p;
    for( std::size_t i = 0 ; i < n / 8 ; ++i ) q[i] = 0x7ff8dead7ff8deadull;
    ++AllocSeam::live;
    if( new_hook ) new_hook( p , n );
    return p;
}

std::vector< Scenario > &scenarios() { static std::vector< Scenario > s; return s; }

// ------------------------------------------------------------------ tape
struct Progress { u64 run; u64 len; u64 state; u64 vals[1]; };
static Progress *g_prog = 0;
static const u64 PROG_CAP = 400000;

static u64 next_rng( u64 *s )
{   // xoroshiro128+
    u64 s0 = s[0] , s1 = s[1] , r = s0 + s1;
    s1 ^= s0;
    s[0] = ( ( s0 << 24 ) | ( s0 >> 40 ) ) ^ s1 ^ ( s1 << 16 );
    s[1] = ( s1 << 37 ) | ( s1 >> 27 );
    return r;
}
static u64 splitmix( u64 &x )
{
    u64 z = ( x += 0x9e3779b97f4a7c15ull );
    z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
    z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
    return z ^ ( z >> 31 );
}
void Ctx::seed( u64 s ) { rng[0] = splitmix( s ); rng[1] = splitmix( s ); }

u64 Ctx::draw( u64 n )
{
    AllocPause ap;
    if( n == 0 ) n = 1;
    u64 v;
    if( replay )
    {
        v = pos < tape.size() ? tape[pos] % n : 0;
        ++pos;
    }
    else
    {
        v = ( next_rng( rng ) >> 11 ) % n;
        tape.push_back( v );
        if( g_prog && tape.size() < PROG_CAP ) { g_prog->vals[ tape.size() - 1 ] = v; g_prog->len = tape.size(); }
    }
    return v;
}
bool Ctx::chance( unsigned per_mille ) { return draw( 1000 ) >= 1000 - (u64)per_mille; }

void Ctx::trace( const char *fmt , ... )
{
    AllocPause ap;
    char b[700]; va_list a; va_start( a , fmt ); vsnprintf( b , sizeof b , fmt , a ); va_end( a );
    if( lines.size() < 4000 ) lines.push_back( b );
}
void Ctx::note( const char *fmt , ... )
{
    AllocPause ap;
    char b[700]; va_list a; va_start( a , fmt ); vsnprintf( b , sizeof b , fmt , a ); va_end( a );
    mix( b );
    if( tracing && lines.size() < 4000 ) lines.push_back( b );
}
void Ctx::log( const char *t , double a ) { mix( t ); mixd( a ); if( tracing ) trace( "%s %.17g" , t , a ); }
void Ctx::log( const char *t , double a , double b ) { mix( t ); mixd( a ); mixd( b ); if( tracing ) trace( "%s %.17g %.17g" , t , a , b ); }
void Ctx::log( const char *t , double a , double b , double c ) { mix( t ); mixd( a ); mixd( b ); mixd( c ); if( tracing ) trace( "%s %.17g %.17g %.17g" , t , a , b , c ); }
void Ctx::logv( const char *t , const double *p , size_t n )
{
    mix( t );
    for( size_t i = 0 ; i < n ; ++i ) mixd( p[i] );
    if( tracing )
    {
        AllocPause ap;
        std::string s = t; char b[40];
        for( size_t i = 0 ; i < n && i < 8 ; ++i ) { snprintf( b , sizeof b , " %.17g" , p[i] ); s += b; }
        if( lines.size() < 4000 ) lines.push_back( s );
    }
}
void Ctx::record( const char *code , const char *fmt , ... )
{
    AllocPause ap;
    char b[900]; va_list a; va_start( a , fmt ); vsnprintf( b , sizeof b , fmt , a ); va_end( a );
    if( !violated ) { violated = true; first.code = code; first.msg = b; mix( code ); if( tracing ) lines.push_back( std::string( "VIOLATED " ) + code + ": " + b ); }
}
void Ctx::fail( const char *code , const char *fmt , ... )
{
    AllocPause ap;
    char b[900]; va_list a; va_start( a , fmt ); vsnprintf( b , sizeof b , fmt , a ); va_end( a );
    if( !violated ) { violated = true; first.code = code; first.msg = b; mix( code ); if( tracing ) lines.push_back( std::string( "VIOLATED " ) + code + ": " + b ); }
    AllocSeam::armed = false;
    throw Violation( first );
}
void Ctx::tick( u64 n )
{
    ticks += n;
    if( ticks > budget ) fail( "no-progress" , "progress budget of %llu events exhausted (livelock)" , (unsigned long long)budget );
}

static void on_alarm( int )
{
    if( g_prog ) g_prog->state = 97;
    _exit( 97 );
}
static void arm_watchdog( int sec )
{
    struct itimerval it; it.it_interval.tv_sec = 0; it.it_interval.tv_usec = 0; it.it_value.tv_sec = sec; it.it_value.tv_usec = 0;
    setitimer( ITIMER_VIRTUAL , &it , 0 );
}

static void run_one( Ctx &c , const std::vector< Scenario > &sc , unsigned total_w , const std::string &only )
{
    c.tracing = c.tracing;
    arm_watchdog( 10 );
    try
    {
        u64 w = c.draw( total_w );
        size_t i = 0;
        while( w >= sc[i].weight ) { w -= sc[i].weight; ++i; }
        c.scenario = sc[i].name;
        c.mix( sc[i].name );
        if( only.size() && only != sc[i].name ) throw Skip();
        sc[i].fn( c );
    }
    catch( const Violation & ) { }
    catch( const Skip & ) { if( !c.violated ) { c.scenario = "skip"; } }
    catch( const SimFault &e ) { c.record( "stray-fault" , "injected fault escaped the scenario" ); }
    catch( const SimFaultRaw &e ) { c.record( "stray-fault" , "injected fault escaped the scenario" ); }
    catch( const std::exception &e ) { AllocSeam::armed = false; c.record( "unexpected-exception" , "%s: %s" , typeid( e ).name() , e.what() ); }
    catch( ... ) { AllocSeam::armed = false; c.record( "unexpected-exception" , "unknown type" ); }
    AllocSeam::armed = false; AllocSeam::fail_at = -1;
    arm_watchdog( 0 );
}

static std::string esc( const std::string &s )
{
    std::string r;
    for( unsigned char ch : s )
    {
        if( ch == '"' || ch == '\\' ) { r += '\\'; r += (char)ch; }
        else if( ch < 32 || ch > 126 ) { char b[8]; snprintf( b , sizeof b , "\\u%04x" , ch ); r += b; }
        else r += (char)ch;
    }
    return r;
}

} // namespace sim

void *operator new( std::size_t n ) { return sim::seam_alloc( n ); }
void *operator new[]( std::size_t n ) { return sim::seam_alloc( n ); }
void operator delete( void *p ) noexcept { if( p ) { --sim::AllocSeam::live; std::free( p ); } }
void operator delete[]( void *p ) noexcept { if( p ) { --sim::AllocSeam::live; std::free( p ); } }
void operator delete( void *p , std::size_t ) noexcept { if( p ) { --sim::AllocSeam::live; std::free( p ); } }
void operator delete[]( void *p , std::size_t ) noexcept { if( p ) { --sim::AllocSeam::live; std::free( p ); } }

using namespace sim;

int main( int argc , char **argv )
{
    std::map< std::string , std::string > o;
    for( int i = 1 ; i + 1 < argc ; i += 2 ) o[ argv[i] ] = argv[i+1];
    if( argc == 2 && std::string( argv[1] ) == "--list" )
    { for( auto &s : scenarios() ) printf( "%s %s %u\n" , s.prop , s.name , s.weight ); return 0; }
    std::string prop = o["--prop"];
    std::vector< Scenario > sc;
    for( auto &s : scenarios() ) if( prop == s.prop ) sc.push_back( s );
    std::sort( sc.begin() , sc.end() , []( const Scenario &a , const Scenario &b ) { return std::string( a.name ) < b.name; } );
    unsigned W = 0; for( auto &s : sc ) W += s.weight;
    if( !W ) { fprintf( stderr , "no scenario for %s\n" , prop.c_str() ); return 3; }
    signal( SIGVTALRM , on_alarm );

    if( o.count( "--tape" ) )
    {   // replay one tape, print one JSON object
        FILE *f = fopen( o["--tape"].c_str() , "r" ); if( !f ) return 3;
        Ctx c; c.replay = true; c.tracing = o.count( "--trace" ) > 0;
        unsigned long long v; while( fscanf( f , "%llu" , &v ) == 1 ) c.tape.push_back( v );
        fclose( f );
        run_one( c , sc , W , "" );
        printf( "{\"scenario\":\"%s\",\"hash\":\"%016llx\",\"used\":%zu,\"violated\":%s,\"code\":\"%s\",\"msg\":\"%s\"" ,
            c.scenario.c_str() , (unsigned long long)c.hash , c.pos , c.violated ? "true" : "false" , esc( c.first.code ).c_str() , esc( c.first.msg ).c_str() );
        if( c.tracing )
        {
            printf( ",\"trace\":[" );
            for( size_t i = 0 ; i < c.lines.size() ; ++i ) printf( "%s\"%s\"" , i ? "," : "" , esc( c.lines[i] ).c_str() );
            printf( "]" );
        }
        printf( "}\n" );
        return c.violated ? 1 : 0;
    }

    u64 seed = strtoull( o["--seed"].c_str() , 0 , 10 );
    u64 first = strtoull( o["--first"].c_str() , 0 , 10 ) , count = strtoull( o["--count"].c_str() , 0 , 10 ) , step = o.count( "--step" ) ? strtoull( o["--step"].c_str() , 0 , 10 ) : 1;
    double tmax = o.count( "--time" ) ? atof( o["--time"].c_str() ) : 1e9;
    std::string only = o["--only"];
    if( o.count( "--progress" ) )
    {
        int fd = open( o["--progress"].c_str() , O_RDWR | O_CREAT | O_TRUNC , 0644 );
        size_t sz = sizeof( Progress ) + PROG_CAP * 8;
        if( fd < 0 || ftruncate( fd , sz ) ) return 3;
        g_prog = (Progress*)mmap( 0 , sz , PROT_READ | PROT_WRITE , MAP_SHARED , fd , 0 );
        if( g_prog == MAP_FAILED ) return 3;
    }
    std::string out = o["--out"];
    struct timespec t0; clock_gettime( CLOCK_MONOTONIC , &t0 );
    u64 runs = 0 , skipped = 0 , nontrivial = 0 , ticks = 0; double simtime = 0; u64 allhash = 0;
    std::unordered_set< u64 > distinct;
    std::map< std::string , u64 > faults , probes , perscen;
    std::map< std::string , std::string > samples;
    std::vector< std::string > viols;
    bool timed_out = false;
    for( u64 k = 0 ; k < count ; ++k )
    {
        u64 idx = first + k * step;
        struct timespec t1; clock_gettime( CLOCK_MONOTONIC , &t1 );
        if( ( t1.tv_sec - t0.tv_sec ) + 1e-9 * ( t1.tv_nsec - t0.tv_nsec ) > tmax ) { timed_out = true; break; }
        Ctx c;
        u64 h = seed * 0x9e3779b97f4a7c15ull + 0x1234567; for( char ch : prop ) h = ( h ^ (u64)(unsigned char)ch ) * 1099511628211ull;
        h ^= idx * 0xd1342543de82ef95ull; splitmix( h ); c.seed( splitmix( h ) );
        if( g_prog ) { g_prog->run = idx; g_prog->len = 0; g_prog->state = 1; }
        run_one( c , sc , W , only );
        if( g_prog ) g_prog->state = 0;
        ++runs; simtime += c.simtime; ticks += c.ticks;
        allhash = allhash * 31 + c.hash;
        if( c.scenario == "skip" ) { ++skipped; continue; }
        if( c.is_nontrivial ) ++nontrivial;
        if( distinct.size() < 4000000 ) distinct.insert( c.hash );
        ++perscen[ c.scenario ];
        for( auto &p : c.faults ) faults[ p.first ] += p.second;
        for( auto &p : c.probes ) probes[ p.first ] += p.second;
        if( samples.size() < 6 && !samples.count( c.scenario ) )
        {
            char b[200]; snprintf( b , sizeof b , "run %llu scenario %s draws %zu hash %016llx" , (unsigned long long)idx , c.scenario.c_str() , c.tape.size() , (unsigned long long)c.hash );
            samples[ c.scenario ] = b;
        }
        if( c.violated )
        {
            char b[256];
            std::string s = "{\"run\":"; snprintf( b , sizeof b , "%llu" , (unsigned long long)idx ); s += b;
            snprintf( b , sizeof b , ",\"hash\":\"%016llx\"" , (unsigned long long)c.hash ); s += b;
            s += ",\"scenario\":\"" + c.scenario + "\",\"code\":\"" + esc( c.first.code ) + "\",\"msg\":\"" + esc( c.first.msg ) + "\",\"tape\":[";
            for( size_t i = 0 ; i < c.tape.size() ; ++i ) { snprintf( b , sizeof b , "%s%llu" , i ? "," : "" , (unsigned long long)c.tape[i] ); s += b; }
            s += "]}";
            viols.push_back( s );
            u64 lim = o.count( "--maxviol" ) ? strtoull( o["--maxviol"].c_str() , 0 , 10 ) : 3;
            if( viols.size() >= lim ) break;
        }
    }
    struct timespec t1; clock_gettime( CLOCK_MONOTONIC , &t1 );
    double wall = ( t1.tv_sec - t0.tv_sec ) + 1e-9 * ( t1.tv_nsec - t0.tv_nsec );
    FILE *f = out.size() ? fopen( out.c_str() , "w" ) : stdout;
    if( !f ) return 3;
    auto dump = [&]( const char *name , const std::map< std::string , u64 > &m ) {
        fprintf( f , ",\"%s\":{" , name ); bool s = false;
        for( auto &p : m ) { fprintf( f , "%s\"%s\":%llu" , s ? "," : "" , esc( p.first ).c_str() , (unsigned long long)p.second ); s = true; }
        fprintf( f , "}" ); };
    fprintf( f , "{\"runs\":%llu,\"skipped\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"simtime\":%.6g,\"events\":%llu,\"wall\":%.3f,\"timed_out\":%s,\"allhash\":\"%016llx\"" ,
        (unsigned long long)runs , (unsigned long long)skipped , (unsigned long long)nontrivial , distinct.size() , simtime , (unsigned long long)ticks , wall , timed_out ? "true" : "false" , (unsigned long long)allhash );
    dump( "faults" , faults ); dump( "probes" , probes ); dump( "scenarios" , perscen );
    fprintf( f , ",\"samples\":[" ); { bool s = false; for( auto &p : samples ) { fprintf( f , "%s\"%s\"" , s ? "," : "" , esc( p.second ).c_str() ); s = true; } }
    fprintf( f , "],\"violations\":[" );
    for( size_t i = 0 ; i < viols.size() ; ++i ) fprintf( f , "%s%s" , i ? "," : "" , viols[i].c_str() );
    fprintf( f , "]}\n" );
    if( f != stdout ) fclose( f );
    return 0;
}
