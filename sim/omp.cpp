// P17: OpenMP algebras and states against the serial range algebra, on a simulated OpenMP runtime:
// team sizes, work-sharing schedules, preemption at any memory access, stalled threads, data races.
#include "core.hpp"
#include "conc.hpp"
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/external/openmp/openmp.hpp>
#include <memory>
namespace ode = boost::numeric::odeint;
using sim::Ctx;
namespace {
typedef std::vector< double > V;
typedef ode::openmp_state< double > O;
typedef std::vector< double > H;

V flat( const V &x ) { return x; }
V flat( const O &x ) { V r; for( auto &b : x ) r.insert( r.end() , b.begin() , b.end() ); return r; }

struct Rhs
{
    double a , w , g; long *calls;
    double f( size_t i , size_t n , double x , double y , double t ) const { return a * std::sin( y + 0.1 * (double)( i % 7 ) ) + g * std::cos( w * t ) - 0.5 * x + 1e-3 * (double)n; }
    void operator()( const V &x , V &d , double t ) const { ++*calls; size_t n = x.size(); for( size_t i = 0 ; i < n ; ++i ) d[i] = f( i , n , x[i] , x[ ( i + 1 ) % n ] , t ); }
    void operator()( const O &x , O &d , double t ) const
    {
        V v = flat( x ) , r( v.size() ); (*this)( v , r , t );
        if( d.size() != x.size() ) throw std::runtime_error( "derivative has another number of blocks" );
        size_t k = 0; for( size_t b = 0 ; b < x.size() ; ++b ) { if( d[b].size() != x[b].size() ) throw std::runtime_error( "derivative block has another size" ); for( double &e : d[b] ) e = r[k++]; }
    }
};
struct Acc      // second order systems
{
    const Rhs *r;
    template< class X > void operator()( const X &q , X &d ) const { (*r)( q , d , 0 ); }
    template< class X > void operator()( const X &q , const X & , X &d , double t ) const { (*r)( q , d , t ); }
};
void put( H &h , const V &v ) { h.insert( h.end() , v.begin() , v.end() ); }

struct Plan { Rhs r; double t0 , dt , eps; int steps; double at; };

template< class S , class X > void drive( S &s , const Plan &p , X x , H &h , ode::stepper_tag )
{ double t = p.t0; for( int i = 0 ; i < p.steps ; ++i ) { s.do_step( p.r , x , t , p.dt ); t += p.dt; put( h , flat( x ) ); } }
template< class S , class X > void drive( S &s , const Plan &p , X x , H &h , ode::error_stepper_tag )
{
    double t = p.t0; X e = x , out = x;
    for( int i = 0 ; i < p.steps ; ++i ) { if( i % 2 ) { s.do_step( p.r , x , t , p.dt , e ); put( h , flat( e ) ); } else { s.do_step( p.r , x , t , out , p.dt ); std::swap( x , out ); } t += p.dt; put( h , flat( x ) ); }
}
template< class S , class X > void drive( S &s , const Plan &p , X x , H &h , ode::explicit_error_stepper_fsal_tag ) { drive( s , p , x , h , ode::error_stepper_tag() ); }
template< class S , class X > void drive( S &s , const Plan &p , X x , H &h , ode::controlled_stepper_tag )
{ double t = p.t0 , dt = p.dt; for( int i = 0 ; i < p.steps ; ++i ) { bool r = s.try_step( p.r , x , t , dt ) == ode::success; h.push_back( r ); h.push_back( t ); h.push_back( dt ); put( h , flat( x ) ); } }
template< class S , class X > void drive( S &s , const Plan &p , X x , H &h , ode::dense_output_stepper_tag )
{
    s.initialize( x , p.t0 , p.dt ); X y = x;
    for( int i = 0 ; i < p.steps ; ++i ) { std::pair< double , double > w = s.do_step( p.r ); h.push_back( w.first ); h.push_back( w.second ); put( h , flat( s.current_state() ) ); s.calc_state( w.first + p.at * ( w.second - w.first ) , y ); put( h , flat( y ) ); }
}
template< class S , class X > void drive_pair( S &s , const Plan &p , X q , H &h )
{
    double t = p.t0; X v = q; Acc a{ &p.r };
    for( int i = 0 ; i < p.steps ; ++i ) { s.do_step( a , std::make_pair( std::ref( q ) , std::ref( v ) ) , t , p.dt ); t += p.dt; put( h , flat( q ) ); put( h , flat( v ) ); }
}
template< class S , class X > void drive_verlet( S &s , const Plan &p , X q , H &h )
{
    double t = p.t0; X v = q; Acc a{ &p.r };
    for( int i = 0 ; i < p.steps ; ++i ) { s.do_step( a , std::make_pair( std::ref( q ) , std::ref( v ) ) , t , p.dt ); t += p.dt; put( h , flat( q ) ); put( h , flat( v ) ); }
}
template< class X , class A > struct Runner
{
    template< class S > void plain( S s , const Plan &p , const std::vector< X > &xs , H &h ) { for( const X &x : xs ) { drive( s , p , x , h , typename S::stepper_category() ); fresh( s ); } }
    template< class S > static auto fresh_( S &s , int ) -> decltype( s.reset() , void() ) { s.reset(); }
    template< class S > static void fresh_( S & , long ) { }
    template< class S > static void fresh( S &s ) { fresh_( s , 0 ); }
    typedef ode::default_operations D; typedef ode::always_resizer R;
    // xs: states of possibly different sizes, integrated one after the other with the same stepper
    void run( int kind , const Plan &p , const std::vector< X > &xs , H &h )
    {
        using namespace ode;
        switch( kind )
        {
            case 0: plain( euler< X , double , X , double , A , D , R >() , p , xs , h ); break;
            case 1: plain( runge_kutta4< X , double , X , double , A , D , R >() , p , xs , h ); break;
            case 2: plain( runge_kutta4_classic< X , double , X , double , A , D , R >() , p , xs , h ); break;
            case 3: plain( runge_kutta_cash_karp54< X , double , X , double , A , D , R >() , p , xs , h ); break;
            case 4: plain( runge_kutta_dopri5< X , double , X , double , A , D , R >() , p , xs , h ); break;
            case 5: plain( runge_kutta_fehlberg78< X , double , X , double , A , D , R >() , p , xs , h ); break;
            case 6: plain( modified_midpoint< X , double , X , double , A , D , R >( 4 ) , p , xs , h ); break;
            case 7: plain( extrapolation_stepper< 6 , X , double , X , double , A , D , R >() , p , xs , h ); break;
            case 8: plain( make_controlled< runge_kutta_cash_karp54< X , double , X , double , A , D , R > >( p.eps , p.eps ) , p , xs , h ); break;
            case 9: plain( make_controlled< runge_kutta_dopri5< X , double , X , double , A , D , R > >( p.eps , p.eps ) , p , xs , h ); break;
            case 10: plain( make_dense_output< runge_kutta_dopri5< X , double , X , double , A , D , R > >( p.eps , p.eps ) , p , xs , h ); break;
            case 11: plain( bulirsch_stoer< X , double , X , double , A , D , R >( p.eps , p.eps ) , p , xs , h ); break;
            case 12: plain( bulirsch_stoer_dense_out< X , double , X , double , A , D , R >( p.eps , p.eps ) , p , xs , h ); break;
            case 13: { adams_bashforth< 4 , X , double , X , double , A , D , R > s; for( const X &x : xs ) { s.reset(); drive( s , p , x , h , stepper_tag() ); } break; }
            case 14: { adams_bashforth_moulton< 3 , X , double , X , double , A , D , R > s; for( const X &x : xs ) { s.reset(); drive( s , p , x , h , stepper_tag() ); } break; }
            case 15: plain( make_controlled< runge_kutta_fehlberg78< X , double , X , double , A , D , R > >( p.eps , p.eps ) , p , xs , h ); break;
            case 16: { symplectic_rkn_sb3a_mclachlan< X , X , double , X , X , double , A , D , R > s; for( const X &x : xs ) drive_pair( s , p , x , h ); break; }
            case 17: { velocity_verlet< X , X , double , X , double , double , A , D , R > s; for( const X &x : xs ) { drive_verlet( s , p , x , h ); s.reset(); } break; }
            case 18: { runge_kutta4< X , double , X , double , A , D , initially_resizer > s; drive( s , p , xs[0] , h , stepper_tag() ); break; }
            case 19: { typename X::value_type *none = 0; (void)none; drive_default( p , xs[0] , h ); break; }
        }
    }
    void drive_default( const Plan &p , const X &x , H &h )      // the algebra is chosen by the dispatcher
    {
        auto s = ode::make_controlled< ode::runge_kutta_dopri5< X > >( p.eps , p.eps );
        X y = x; double dt = p.dt;
        h.push_back( ode::integrate_adaptive( s , p.r , y , p.t0 , p.t0 + p.steps * p.dt , dt ) ); put( h , flat( y ) );
    }
};
const int KINDS = 20;

conc::Config draw_config( Ctx &c )
{
    conc::Config g;
    g.max_threads = 1 + (unsigned)c.draw( 8 ); if( c.chance( 200 ) ) g.max_threads = 2;
    static const unsigned grains[] = { 60 , 8 , 400 , 2 , 3000 };
    g.grain = grains[ c.draw( 5 ) ];
    g.sched = (unsigned)c.draw( 4 ); g.chunk = (unsigned)c.draw( 4 );       // chunk 0: static without a chunk size
    g.deliver_less = c.chance( 300 );
    if( c.chance( 250 ) ) { g.straggler = 1 + (unsigned)c.draw( g.max_threads ); c.fault( "stalled-thread" ); }
    c.note( "threads %u schedule %u chunk %u grain %u straggler %u" , g.max_threads , g.sched , g.chunk , g.grain , g.straggler );
    static const char *const names[] = { "schedule static" , "schedule dynamic" , "schedule guided" , "chunks in any order" };
    c.cover( names[ g.sched ] );
    return g;
}
struct World { World( Ctx &c , const conc::Config &g ) { conc::begin( c , g ); } ~World() { conc::end(); } };
void finish( Ctx &c )
{
    if( c.violated ) throw sim::Violation( c.first );
    if( conc::stats.switches > 2 ) c.nontrivial();
    for( sim::u64 i = 0 ; i < conc::stats.switches ; i += 16 ) c.cover( "16 thread switches" );
    for( sim::u64 i = 0 ; i < conc::stats.chunks ; i += 16 ) c.cover( "16 chunks" );
    for( sim::u64 i = 0 ; i < conc::stats.regions ; i += 4 ) c.cover( "4 parallel regions" );
}
void compare( Ctx &c , const char *what , int kind , const H &a , const H &b )
{
    c.logvec( "result" , b );
    if( a.size() != b.size() ) c.fail( "other-history" , "%s, stepper %d: %zu values, the serial algebra gives %zu" , what , kind , b.size() , a.size() );
    for( size_t i = 0 ; i < a.size() ; ++i )
        if( !( std::fabs( a[i] - b[i] ) <= 1e-11 * ( 1 + std::fabs( a[i] ) ) ) ) c.fail( "other-result" , "%s, stepper %d: value %zu of the history is %.17g, the serial algebra gives %.17g" , what , kind , i , b[i] , a[i] );
}
Plan draw_plan( Ctx &c , long *calls )
{
    Plan p; p.r.a = c.real( -1 , 1 ); p.r.w = c.real( 0.3 , 2 ); p.r.g = c.real( -1 , 1 ); p.r.calls = calls;
    p.t0 = c.chance( 500 ) ? 0 : c.real( -2 , 2 ); p.dt = c.real( 0.02 , 0.3 ) * ( c.chance( 300 ) ? -1 : 1 ); p.eps = std::pow( 10. , -c.real( 3 , 9 ) ); p.steps = 2 + (int)c.draw( 4 ); p.at = c.unit();
    return p;
}
V draw_x( Ctx &c , size_t n ) { V x( n ); for( double &v : x ) v = c.real( -1.5 , 1.5 ); return x; }
size_t draw_n( Ctx &c ) { size_t n = 1 + c.draw( 9 ); if( c.chance( 200 ) ) n = 10 + c.draw( 40 ); return n; }
O draw_blocks( Ctx &c , const V &x )
{
    O o; size_t i = 0;
    size_t nb = 1 + c.draw( 6 );
    for( size_t b = 0 ; b < nb ; ++b ) { size_t k = b + 1 == nb ? x.size() - i : c.draw( x.size() - i + 1 ); o.push_back( V( x.begin() + (long)i , x.begin() + (long)( i + k ) ) ); i += k; }
    return o;
}
} // namespace

SIM_SCENARIO( P17 , range_algebra , 3 )
{
    long ca = 0 , cb = 0; Plan p = draw_plan( c , &ca );
    int kind = (int)c.draw( KINDS - 1 );
    std::vector< V > xs; size_t m = 1 + c.draw( 2 ); for( size_t i = 0 ; i < m ; ++i ) xs.push_back( draw_x( c , draw_n( c ) ) );
    H a , b; c.note( "stepper %d" , kind );
    Runner< V , ode::range_algebra >().run( kind , p , xs , a );
    p.r.calls = &cb;
    { World w( c , draw_config( c ) ); Runner< V , ode::openmp_range_algebra >().run( kind , p , xs , b ); }
    finish( c ); c.elapse( p.steps * p.dt );
    compare( c , "openmp_range_algebra" , kind , a , b );
    if( ca != cb ) c.fail( "other-calls" , "%ld evaluations of the right-hand side, %ld with the serial algebra" , cb , ca );
}
SIM_SCENARIO( P17 , split_state , 3 )
{
    long ca = 0 , cb = 0; Plan p = draw_plan( c , &ca );
    int kind = (int)c.draw( KINDS );
    std::vector< V > xs; std::vector< O > os; size_t m = 1 + c.draw( 2 );
    for( size_t i = 0 ; i < m ; ++i ) { xs.push_back( draw_x( c , i && c.chance( 400 ) ? xs[0].size() : draw_n( c ) ) ); os.push_back( draw_blocks( c , xs[i] ) ); }
    H a , b; c.note( "stepper %d" , kind );
    Runner< V , ode::range_algebra >().run( kind , p , xs , a );
    p.r.calls = &cb;
    { World w( c , draw_config( c ) ); Runner< O , ode::openmp_algebra >().run( kind , p , os , b ); }
    finish( c ); c.elapse( p.steps * p.dt );
    compare( c , "openmp_state" , kind , a , b );
    if( ca != cb ) c.fail( "other-calls" , "%ld evaluations of the right-hand side, %ld with the serial algebra" , cb , ca );
}
SIM_SCENARIO( P17 , split_and_copy , 2 )
{
    V x = draw_x( c , c.chance( 100 ) ? 0 : draw_n( c ) ) , back( c.draw( 5 ) );
    conc::Config g = draw_config( c );
    O o( c.chance( 300 ) ? 0 : 1 + c.draw( 9 ) ); size_t asked = o.size();
    O p = draw_blocks( c , draw_x( c , draw_n( c ) ) );
    bool same = false , same2 = false; V viap;
    {
        World w( c , g );
        ode::split( x , o );
        ode::unsplit( o , back );
        ode::resize( p , o ); same = ode::same_size( p , o );
        ode::copy( o , p ); viap = flat( p );
        if( !o.empty() && !o.back().empty() ) { p.back().push_back( 1 ); same2 = ode::same_size( p , o ); }
    }
    finish( c ); if( x.size() > 1 ) c.nontrivial();
    c.logvec( "back" , back );
    if( asked && o.size() != asked ) c.fail( "split-blocks" , "split into %zu blocks, %zu asked for" , o.size() , asked );
    if( !asked && o.size() != g.max_threads ) c.fail( "split-blocks" , "split into %zu blocks, omp_get_max_threads is %u" , o.size() , g.max_threads );
    if( flat( o ) != x ) c.fail( "split" , "the blocks of a vector of %zu elements hold %zu elements or others" , x.size() , flat( o ).size() );
    if( back != x ) c.fail( "unsplit" , "unsplit( split( x ) ) is not x (%zu and %zu elements)" , back.size() , x.size() );
    if( !same ) c.fail( "resize" , "same_size is false after resize" );
    if( same2 ) c.fail( "same-size" , "same_size is true for blocks of different size" );
    if( viap != x ) c.fail( "copy" , "the copy of the state differs from the state" );
}

// ---------------------------------------------------------------- for_each1..15 directly
namespace {
struct Op
{   // the first argument depends on all arguments and on its old value: a skipped, doubled or mixed element shows
    template< class T0 > void operator()( T0 &a ) const { a = 0.5 * a + 1; }
    template< class T0 , class... T > void operator()( T0 &a , const T &...r ) const { double s = 1 , k = 1; int d[] = { ( s += ( k += 0.75 ) * r , 0 )... }; (void)d; a = 0.5 * a + s; }
};
template< class A , class X > void call( int n , X *x )
{
    Op o;
    switch( n )
    {
        case 1: A::for_each1( x[0] , o ); break;
        case 2: A::for_each2( x[0] , x[1] , o ); break;
        case 3: A::for_each3( x[0] , x[1] , x[2] , o ); break;
        case 4: A::for_each4( x[0] , x[1] , x[2] , x[3] , o ); break;
        case 5: A::for_each5( x[0] , x[1] , x[2] , x[3] , x[4] , o ); break;
        case 6: A::for_each6( x[0] , x[1] , x[2] , x[3] , x[4] , x[5] , o ); break;
        case 7: A::for_each7( x[0] , x[1] , x[2] , x[3] , x[4] , x[5] , x[6] , o ); break;
        case 8: A::for_each8( x[0] , x[1] , x[2] , x[3] , x[4] , x[5] , x[6] , x[7] , o ); break;
        case 9: A::for_each9( x[0] , x[1] , x[2] , x[3] , x[4] , x[5] , x[6] , x[7] , x[8] , o ); break;
        case 10: A::for_each10( x[0] , x[1] , x[2] , x[3] , x[4] , x[5] , x[6] , x[7] , x[8] , x[9] , o ); break;
        case 11: A::for_each11( x[0] , x[1] , x[2] , x[3] , x[4] , x[5] , x[6] , x[7] , x[8] , x[9] , x[10] , o ); break;
        case 12: A::for_each12( x[0] , x[1] , x[2] , x[3] , x[4] , x[5] , x[6] , x[7] , x[8] , x[9] , x[10] , x[11] , o ); break;
        case 13: A::for_each13( x[0] , x[1] , x[2] , x[3] , x[4] , x[5] , x[6] , x[7] , x[8] , x[9] , x[10] , x[11] , x[12] , o ); break;
        case 14: A::for_each14( x[0] , x[1] , x[2] , x[3] , x[4] , x[5] , x[6] , x[7] , x[8] , x[9] , x[10] , x[11] , x[12] , x[13] , o ); break;
        case 15: A::for_each15( x[0] , x[1] , x[2] , x[3] , x[4] , x[5] , x[6] , x[7] , x[8] , x[9] , x[10] , x[11] , x[12] , x[13] , x[14] , o ); break;
    }
}
}
SIM_SCENARIO( P17 , for_each , 2 )
{
    int arity = 1 + (int)c.draw( 15 ); size_t n = c.chance( 60 ) ? 0 : draw_n( c );
    std::vector< V > a , b; for( int i = 0 ; i < arity ; ++i ) a.push_back( draw_x( c , n ) );
    b = a;
    V x = draw_x( c , n ); double want = 0; for( double v : x ) want = std::max( want , std::fabs( v ) );
    if( n && c.chance( 500 ) ) { size_t k = c.draw( n ); x[k] = c.chance( 500 ) ? -3 : 3; want = 3; }      // the maximum at a drawn place, either sign
    O ox = draw_blocks( c , x ); std::vector< O > ob;
    for( int i = 0 ; i < arity ; ++i ) { O o; size_t k = 0; for( auto &blk : ox ) { o.push_back( V( a[i].begin() + (long)k , a[i].begin() + (long)( k + blk.size() ) ) ); k += blk.size(); } ob.push_back( o ); }
    // serial definition
    for( size_t j = 0 ; j < n ; ++j )
    {
        double s = 1 , k = 1; for( int i = 1 ; i < arity ; ++i ) s += ( k += 0.75 ) * a[i][j];
        a[0][j] = 0.5 * a[0][j] + s;
    }
    bool nested = c.chance( 500 ); double got = 0;
    c.note( "for_each%d %s %zu elements" , arity , nested ? "nested" : "range" , n ); c.cover( nested ? "openmp_nested_algebra" : "openmp_range_algebra" );
    {
        World w( c , draw_config( c ) );
        if( nested ) { call< ode::openmp_algebra >( arity , ob.data() ); got = ode::openmp_algebra::norm_inf( ox ); }
        else { call< ode::openmp_range_algebra >( arity , b.data() ); got = ode::openmp_range_algebra::norm_inf( x ); }
    }
    finish( c );
    for( int i = 0 ; i < arity ; ++i )
    {
        V r = nested ? flat( ob[i] ) : b[i];
        for( size_t j = 0 ; j < n ; ++j ) if( !( std::fabs( r[j] - a[i][j] ) <= 1e-11 * ( 1 + std::fabs( a[i][j] ) ) ) ) c.fail( "for-each" , "for_each%d (%s): element %zu of argument %d is %.17g, expected %.17g" , arity , nested ? "nested" : "range" , j , i , r[j] , a[i][j] );
    }
    if( got != want ) c.fail( "norm" , "norm_inf (%s) is %.17g, expected %.17g" , nested ? "nested" : "range" , got , want );
}
