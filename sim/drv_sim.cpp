// P01..P05: integrate functions and iterators against simulated steppers.
#include "drv_common.hpp"
#include <boost/range/adaptor/transformed.hpp>
#include <boost/iterator/iterator_facade.hpp>
#include <boost/numeric/odeint/iterator/n_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <list>
#include <deque>

using namespace drv;

static V start_state( double t0 ) { V x( 2 ); x[0] = t0; x[1] = 42; return x; }

static void check_state_end( Ctx &c , World &w , const V &x , double t , const char *code )
{
    SIM_CHECK( c , x.size() == 2 && x[1] == 42 , "state-corrupted" , "final state has size %zu / marker %g" , x.size() , x[1] );
    SIM_CHECK( c , std::fabs( x[0] - t ) <= w.tol , code , "state after the integration belongs to t=%.17g, expected t=%.17g" , x[0] , t );
}

static void check_grid( Ctx &c , World &w , const Grid &g )
{
    for( size_t k = 0 ; k < w.obs.size() && (long)k <= g.n ; ++k )
    {
        double e = g.t0 + (double)k * g.dt;
        double tt = g.exact ? 0 : 8 * 2.3e-16 * w.scale + w.tol * 0.01;
        SIM_CHECK( c , std::fabs( w.obs[k].t - e ) <= tt , "observation-time" , "observation %zu at t=%.17g, expected t0+%zu*dt=%.17g" , k , w.obs[k].t , k , e );
        SIM_CHECK( c , std::fabs( w.obs[k].x - w.obs[k].t ) <= w.tol , "observed-state" , "observation %zu at t=%.17g shows the state of t=%.17g" , k , w.obs[k].t , w.obs[k].x );
    }
    SIM_CHECK( c , (long)w.obs.size() == g.n + 1 , "observation-count" , "%zu observations, expected %ld (t0=%.17g dt=%.17g t1=%.17g)" , w.obs.size() , g.n + 1 , g.t0 , g.dt , g.t1 );
}

enum Cat { BASIC = 0 , CTRL = 1 , DENSE = 2 };

template< class F > static void each_category( Ctx &c , World &w , int cat , F f )
{
    if( cat == BASIC ) { SimStepper st; st.w = &w; with_passing( c , st , f ); }
    else if( cat == CTRL ) { SimControlled st; st.w = &w; with_passing( c , st , f ); }
    else { SimDense st( &w ); with_passing( c , st , f ); }
}

// ------------------------------------------------------------------ P01
struct ConstCall
{
    Ctx &c; World &w; const Grid &g; V &x; int variant; size_t ret = 0;
    template< class St > void operator()( St st )
    {
        Rhs sys{ &w }; Observer obs{ &w };
        switch( variant )
        {
        case 0: ret = ode::integrate_const( st , sys , x , g.t0 , g.t1 , g.dt , obs ); break;
        case 1: ret = ode::integrate_const( st , sys , x , g.t0 , g.t1 , g.dt , std::ref( obs ) ); break;
        case 2: ret = ode::integrate_const( st , boost::ref( sys ) , x , g.t0 , g.t1 , g.dt , obs , ode::max_step_checker( 1000000 ) ); break;
        case 3: ret = ode::integrate_const( st , sys , x , g.t0 , g.t1 , g.dt ); break;
        case 4: ret = ode::integrate_const( st , sys , x , g.t0 , g.t1 , g.dt , ode::null_observer() , ode::max_step_checker( 1000000 ) ); break;
        default: ret = ode::integrate_const( st , sys , x , g.t0 , g.t1 , g.dt , ode::null_observer() ); break;
        }
    }
};

SIM_SCENARIO( P01 , const_grid , 3 )
{
    World w( c );
    Grid g = draw_grid( c , 30 );
    set_world( w , g );
    int cat = (int)c.draw( 3 );
    draw_schedule( c , w );
    V x = start_state( g.t0 );
    ConstCall call{ c , w , g , x , (int)c.draw( 6 ) };
    c.note( "integrate_const cat=%d variant=%d t0=%.17g t1=%.17g dt=%.17g" , cat , call.variant , g.t0 , g.t1 , g.dt );
    each_category( c , w , cat , [&]( auto st ) { call( st ); } );
    if( call.variant < 3 )
    {
        check_grid( c , w , g );
    }
    check_state_end( c , w , x , g.t0 + g.n * g.dt , "final-state" );
    SIM_CHECK( c , (long)call.ret == w.steps , "step-count" , "returned %zu steps, %ld were made" , call.ret , w.steps );
    if( w.steps > 1 ) c.nontrivial();
    c.cover( cat == BASIC ? "const-basic" : cat == CTRL ? "const-controlled" : "const-dense" );
    if( g.dt < 0 ) c.cover( "backward" );
}

struct NStepsCall
{
    Ctx &c; World &w; const Grid &g; V &x; int variant; double ret = 0;
    template< class St > void operator()( St st )
    {
        Rhs sys{ &w }; Observer obs{ &w };
        switch( variant )
        {
        case 0: ret = ode::integrate_n_steps( st , sys , x , g.t0 , g.dt , (size_t)g.n , obs ); break;
        case 1: ret = ode::integrate_n_steps( st , sys , x , g.t0 , g.dt , (size_t)g.n , boost::ref( obs ) ); break;
        case 2: ret = ode::integrate_n_steps( st , std::ref( sys ) , x , g.t0 , g.dt , (size_t)g.n , obs , ode::max_step_checker( 1000000 ) ); break;
        case 3: ret = ode::integrate_n_steps( st , sys , x , g.t0 , g.dt , (size_t)g.n ); break;
        default: ret = ode::integrate_n_steps( st , sys , x , g.t0 , g.dt , (size_t)g.n , ode::null_observer() , ode::max_step_checker( 1000000 ) ); break;
        }
    }
};

SIM_SCENARIO( P01 , n_steps_grid , 3 )
{
    World w( c );
    Grid g = draw_grid( c , 30 );
    g.t1 = g.t0 + g.n * g.dt;
    set_world( w , g );
    int cat = (int)c.draw( 3 );
    draw_schedule( c , w );
    V x = start_state( g.t0 );
    NStepsCall call{ c , w , g , x , (int)c.draw( 5 ) };
    c.note( "integrate_n_steps cat=%d variant=%d t0=%.17g n=%ld dt=%.17g" , cat , call.variant , g.t0 , g.n , g.dt );
    each_category( c , w , cat , [&]( auto st ) { call( st ); } );
    if( call.variant < 3 ) check_grid( c , w , g );
    check_state_end( c , w , x , g.t1 , "final-state" );
    SIM_CHECK( c , std::fabs( call.ret - g.t1 ) <= ( g.exact ? 0 : w.tol ) , "end-time" , "returned end time %.17g, expected %.17g" , call.ret , g.t1 );
    if( cat == BASIC ) SIM_CHECK( c , w.steps == g.n , "step-count" , "%ld steps made, %ld requested" , w.steps , g.n );
    if( w.steps > 1 ) c.nontrivial();
    c.cover( cat == BASIC ? "nsteps-basic" : cat == CTRL ? "nsteps-controlled" : "nsteps-dense" );
    if( g.dt < 0 ) c.cover( "backward" );
}

// ------------------------------------------------------------------ P02
struct TimesWorld
{
    std::vector< double > times;
};

// a sequence of times that checks every access: nothing outside [begin,end) may be read
struct Seq { Ctx *c; const std::vector< double > *ts; };
struct SeqIt : boost::iterator_facade< SeqIt , double , boost::random_access_traversal_tag , double >
{
    const Seq *s = nullptr; std::ptrdiff_t i = 0;
    SeqIt() {}
    SeqIt( const Seq *q , std::ptrdiff_t k ) : s( q ) , i( k ) {}
    double dereference() const
    {
        if( i < 0 || i >= (std::ptrdiff_t)s->ts->size() ) s->c->fail( "past-end" , "the time at position %td of a sequence of %zu is read" , i , s->ts->size() );
        return (*s->ts)[i];
    }
    bool equal( const SeqIt &o ) const { return i == o.i; }
    void increment() { ++i; }
    void decrement() { --i; }
    void advance( std::ptrdiff_t n ) { i += n; }
    std::ptrdiff_t distance_to( const SeqIt &o ) const { return o.i - i; }
};

struct TimesCall
{
    Ctx &c; World &w; const Grid &g; V &x; const std::vector< double > &ts; int variant; size_t ret = 0;
    template< class St > void operator()( St st )
    {
        Rhs sys{ &w }; Observer obs{ &w };
        switch( variant )
        {
        case 0: ret = ode::integrate_times( st , sys , x , ts.begin() , ts.end() , g.dt , obs ); break;
        case 1: ret = ode::integrate_times( st , sys , x , ts , g.dt , std::ref( obs ) ); break;
        case 2: ret = ode::integrate_times( st , boost::ref( sys ) , x , ts.begin() , ts.end() , g.dt , obs , ode::max_step_checker( 1000000 ) ); break;
        default: { std::list< double > l( ts.begin() , ts.end() ); ret = ode::integrate_times( st , sys , x , l.begin() , l.end() , g.dt , obs ); } break;
        }
    }
};

// the limit a step must not pass depends on how many observations are done
struct TimesObserver { World *w; const std::vector< double > *ts; int cat;
    template< class X > void operator()( const X &x , double t ) const {
        w->observe( t , x[0] );
        if( cat != DENSE ) w->limit = w->obs.size() < ts->size() ? (*ts)[ w->obs.size() ] : ts->back();
    } };

SIM_SCENARIO( P02 , times_points , 4 )
{
    World w( c );
    Grid g = draw_grid( c , 3 );
    std::vector< double > ts;
    draw_times( c , g , ts );
    set_world( w , g );
    int cat = (int)c.draw( 3 );
    draw_schedule( c , w );
    V x = start_state( g.t0 );
    int variant = (int)c.draw( 5 );
    Seq seq{ &c , &ts };
    c.note( "integrate_times cat=%d variant=%d n=%zu t0=%.17g t1=%.17g dt=%.17g" , cat , variant , ts.size() , g.t0 , g.t1 , g.dt );
    for( double t : ts ) c.log( "time" , t );
    size_t ret = 0;
    w.limit = cat == DENSE ? ts.back() : ts.front();
    each_category( c , w , cat , [&]( auto st ) {
        Rhs sys{ &w }; TimesObserver obs{ &w , &ts , cat };
        switch( variant )
        {
        case 0: ret = ode::integrate_times( st , sys , x , ts.begin() , ts.end() , g.dt , obs ); break;
        case 1: ret = ode::integrate_times( st , sys , x , ts , g.dt , std::ref( obs ) ); break;
        case 2: ret = ode::integrate_times( st , boost::ref( sys ) , x , ts.begin() , ts.end() , g.dt , obs , ode::max_step_checker( 1000000 ) ); break;
        case 3: ret = ode::integrate_times( st , sys , x , SeqIt( &seq , 0 ) , SeqIt( &seq , (std::ptrdiff_t)ts.size() ) , g.dt , boost::ref( obs ) ); break;
        default: { std::list< double > l( ts.begin() , ts.end() ); ret = ode::integrate_times( st , sys , x , l.begin() , l.end() , g.dt , boost::ref( obs ) ); } break;
        } } );
    for( size_t k = 0 ; k < w.obs.size() && k < ts.size() ; ++k )
    {
        SIM_CHECK( c , w.obs[k].t == ts[k] , "observation-time" , "observation %zu at t=%.17g, requested %.17g" , k , w.obs[k].t , ts[k] );
        SIM_CHECK( c , std::fabs( w.obs[k].x - ts[k] ) <= w.tol , "observed-state" , "observation %zu at t=%.17g shows the state of t=%.17g" , k , ts[k] , w.obs[k].x );
    }
    SIM_CHECK( c , w.obs.size() == ts.size() , "observation-count" , "%zu observations for %zu requested times" , w.obs.size() , ts.size() );
    check_state_end( c , w , x , ts.back() , "final-state" );
    SIM_CHECK( c , (long)ret == w.steps , "step-count" , "returned %zu steps, %ld were made" , ret , w.steps );
    if( w.sched.d.empty() && cat != DENSE )
    {   // an observation point must not make the steps after it smaller than the requested dt
        double need = 0;
        for( size_t k = 1 ; k < ts.size() ; ++k ) need += std::ceil( std::fabs( ts[k] - ts[k-1] ) / std::fabs( g.dt ) + 1e-9 ) + 1;
        SIM_CHECK( c , w.steps <= need + 1 , "step-size-lost" , "%ld steps made, %g suffice with the requested dt" , w.steps , need );
    }
    if( w.steps > 1 && ts.size() > 2 ) c.nontrivial();
    c.cover( cat == BASIC ? "times-basic" : cat == CTRL ? "times-controlled" : "times-dense" );
    if( g.dt < 0 ) c.cover( "backward" );
}

// an empty sequence of times: nothing is read, observed or stepped
SIM_SCENARIO( P02 , times_empty , 1 )
{
    World w( c );
    Grid g = draw_grid( c , 3 );
    std::vector< double > ts;
    set_world( w , g ); w.limit_on = false;
    int cat = (int)c.draw( 3 ) , variant = (int)c.draw( 4 );
    c.note( "integrate_times over an empty range, cat=%d variant=%d" , cat , variant );
    V x = start_state( g.t0 );
    Seq seq{ &c , &ts };
    SeqIt e( &seq , 0 );
    size_t ret = 99;
    each_category( c , w , cat , [&]( auto st ) {
        Rhs sys{ &w }; Observer obs{ &w };
        switch( variant )
        {
        case 0: ret = ode::integrate_times( st , sys , x , e , e , g.dt , obs ); break;
        case 1: ret = ode::integrate_times( st , boost::ref( sys ) , x , std::make_pair( e , e ) , g.dt , boost::ref( obs ) ); break;
        case 2: ret = ode::integrate_times( st , sys , x , e , e , g.dt , obs , ode::max_step_checker( 3 ) ); break;
        default: ret = ode::integrate_times( st , sys , x , ts , g.dt , obs ); break;
        } } );
    SIM_CHECK( c , ret == 0 && w.steps == 0 && w.obs.empty() , "empty-range" , "%zu steps returned, %ld made, %zu observations for no time" , ret , w.steps , w.obs.size() );
    SIM_CHECK( c , x == start_state( g.t0 ) , "empty-range" , "the state was changed" );
    c.nontrivial();
    c.cover( "times-empty" );
}

// ------------------------------------------------------------------ P03
static void draw_end( Ctx &c , Grid &g )
{
    if( g.exact && c.chance( 300 ) ) g.t1 = g.t0 + g.n * g.dt;     // end on the grid
    if( !g.exact && c.chance( 300 ) )
    {   // start and end of very different magnitude: rounding of t1 - t matters
        static const double m[] = { 1 , 100 , 1e4 , 1e6 };
        double a = c.pick( m ) , b = 1 / c.pick( m );
        double dir = g.dt > 0 ? 1 : -1;
        g.t0 = -dir * a * c.real( 0.1 , 1 ); g.t1 = dir * b * c.real( 0.1 , 1 );
        g.dt = dir * ( a * c.real( 0.02 , 3 ) );
    }
}

SIM_SCENARIO( P03 , adaptive_end , 4 )
{
    World w( c );
    Grid g = draw_grid( c , 30 );
    draw_end( c , g );
    set_world( w , g );
    w.c.set_budget( 100000 );
    int cat = (int)c.draw( 3 );
    draw_schedule( c , w );
    V x = start_state( g.t0 );
    int variant = (int)c.draw( 3 );
    size_t ret = 0;
    bool empty = !( w.dir * ( g.t1 - g.t0 ) > 0 );
    c.note( "integrate_adaptive cat=%d variant=%d t0=%.17g t1=%.17g dt=%.17g" , cat , variant , g.t0 , g.t1 , g.dt );
    each_category( c , w , cat , [&]( auto st ) {
        Rhs sys{ &w }; Observer obs{ &w };
        switch( variant )
        {
        case 0: ret = ode::integrate_adaptive( st , sys , x , g.t0 , g.t1 , g.dt , obs ); break;
        case 1: ret = ode::integrate_adaptive( st , std::ref( sys ) , x , g.t0 , g.t1 , g.dt , boost::ref( obs ) ); break;
        default: ret = ode::integrate_adaptive( st , sys , x , g.t0 , g.t1 , g.dt ); break;
        } } );
    double tend = empty ? g.t0 : g.t1;
    if( variant != 2 )
    {
        SIM_CHECK( c , w.obs.size() >= 1 && w.obs[0].t == g.t0 , "observation-time" , "first observation not at t0" );
        for( size_t k = 0 ; k < w.obs.size() ; ++k )
        {
            SIM_CHECK( c , std::fabs( w.obs[k].x - w.obs[k].t ) <= w.tol , "observed-state" , "observation %zu at t=%.17g shows the state of t=%.17g" , k , w.obs[k].t , w.obs[k].x );
            if( k ) SIM_CHECK( c , w.dir * ( w.obs[k].t - w.obs[k-1].t ) > 0 , "observation-order" , "observation %zu at t=%.17g after t=%.17g" , k , w.obs[k].t , w.obs[k-1].t );
            if( k ) SIM_CHECK( c , w.gaps[k] == 1 , "observation-missed" , "%ld steps between observations %zu and %zu" , w.gaps[k] , k - 1 , k );
        }
        SIM_CHECK( c , std::fabs( w.obs.back().t - tend ) <= w.tol , "end-time" , "last observation at t=%.17g, end time is %.17g" , w.obs.back().t , tend );
        SIM_CHECK( c , (long)w.obs.size() == w.steps + 1 , "observation-count" , "%zu observations for %ld steps" , w.obs.size() , w.steps );
    }
    check_state_end( c , w , x , tend , "final-state" );
    SIM_CHECK( c , (long)ret == w.steps , "step-count" , "returned %zu steps, %ld were made" , ret , w.steps );
    if( cat == BASIC && !empty )
    {
        double k = std::fabs( ( g.t1 - g.t0 ) / g.dt );
        SIM_CHECK( c , w.steps <= std::ceil( k + 1e-6 ) + 1 , "step-count" , "%ld steps of dt=%g for an interval of %g" , w.steps , g.dt , g.t1 - g.t0 );
    }
    if( w.steps > 1 ) c.nontrivial();
    c.cover( cat == BASIC ? "adaptive-basic" : cat == CTRL ? "adaptive-controlled" : "adaptive-dense" );
    if( g.dt < 0 ) c.cover( "backward" );
}

// ------------------------------------------------------------------ P04
// a burst of rejections: up to 500 must be tolerated, more must end in step_adjustment_error
static void burst( Ctx &c , World &w , long R )
{
    long lead = (long)c.draw( 6 );
    for( long i = 0 ; i < lead ; ++i ) w.sched.d.push_back( Decision{ c.chance( 300 ) , 0.9 } );
    w.sched.d.push_back( Decision{ false , 1.0 } );
    for( long i = 0 ; i < R ; ++i ) w.sched.d.push_back( Decision{ true , 0.995 } );
    w.sched.d.push_back( Decision{ false , 4.0 } ); w.sched.d.push_back( Decision{ false , 4.0 } ); w.sched.d.push_back( Decision{ false , 2.0 } );
}

SIM_SCENARIO( P04 , bounded_rejections , 3 )
{
    World w( c );
    Grid g = draw_grid( c , 8 ); if( g.n < 2 ) g.n = 2;
    g.t1 = g.t0 + g.n * g.dt;
    set_world( w , g ); w.limit_on = false; w.recover = false;
    static const long Rs[] = { 5 , 100 , 400 , 490 , 498 , 502 , 520 , 800 , 2000 };
    long R = c.pick( Rs );
    burst( c , w , R );
    int drvk = (int)c.draw( 4 );
    V x = start_state( g.t0 );
    std::vector< double > ts; for( long k = 0 ; k <= g.n ; ++k ) ts.push_back( g.t0 + k * g.dt );
    bool threw = false; std::string what;
    c.note( "driver=%d R=%ld t0=%g dt=%g n=%ld" , drvk , R , g.t0 , g.dt , g.n );
    SimControlled st0; st0.w = &w;
    try
    {
        with_passing( c , st0 , [&]( auto st ) {
            Rhs sys{ &w }; Observer obs{ &w };
            switch( drvk )
            {
            case 0: ode::integrate_adaptive( st , sys , x , g.t0 , g.t1 , g.dt , obs ); break;
            case 1: ode::integrate_const( st , sys , x , g.t0 , g.t0 + ( g.n + 0.5 ) * g.dt , g.dt , obs ); break;
            case 2: ode::integrate_n_steps( st , sys , x , g.t0 , g.dt , (size_t)g.n , obs ); break;
            default: ode::integrate_times( st , sys , x , ts.begin() , ts.end() , g.dt , obs ); break;
            } } );
    }
    catch( const ode::step_adjustment_error &e ) { threw = true; what = e.what(); }
    bool reached = w.max_fail >= R;      // the burst lies within the integration
    bool over = w.max_fail > 502;
    SIM_CHECK( c , !over , "unbounded-rejections" , "%ld consecutive rejections without step_adjustment_error" , w.max_fail );
    if( threw )
    {
        SIM_CHECK( c , w.consecutive_fail >= 498 , "premature-adjustment-error" , "step_adjustment_error after only %ld consecutive rejections" , w.consecutive_fail );
        SIM_CHECK( c , std::fabs( x[0] - w.last_t ) <= w.tol , "state-after-error" , "after the error the state belongs to t=%.17g, the last accepted step ended at t=%.17g" , x[0] , w.last_t );
        c.cover( "step_adjustment_error" );
    }
    else
    {
        SIM_CHECK( c , !( reached && R >= 502 ) , "missing-adjustment-error" , "%ld consecutive rejections were accepted silently" , R );
        check_state_end( c , w , x , g.t1 , "final-state" );
    }
    if( reached ) c.nontrivial();
}

// max_step_checker: no_progress_error exactly if more than the allowed number of steps is made between two observations
SIM_SCENARIO( P04 , no_progress , 4 )
{
    World w( c );
    Grid g = draw_grid( c , 8 ); if( g.n < 1 ) g.n = 1;
    g.t1 = g.t0 + ( g.n + 0.5 ) * g.dt;
    int cat = (int)c.draw( 3 );
    int drvk = (int)c.draw( 3 );
    set_world( w , g ); w.limit_on = false; w.recover = false;
    long N = 1 + (long)c.draw( 12 );
    if( c.chance( 100 ) ) N = 500;
    // steps per observation interval: shrink once, keep, grow back
    size_t L = c.draw( 40 );
    static const double f[] = { 1.0 , 0.5 , 0.25 , 2.0 , 4.0 , 1.0 , 1.0 };
    for( size_t i = 0 ; i < L ; ++i ) { Decision q{ c.chance( 150 ) , c.pick( f ) }; if( q.reject ) q.f = 0.5; w.sched.d.push_back( q ); }
    if( N == 500 )
    {   // one interval of many tiny steps
        w.sched.d.clear(); static const double tf[] = { 1.0/1024 , 1.0/300 , 1.0/2048 }; double f0 = c.pick( tf );
        w.sched.d.push_back( Decision{ false , 1.0 } );
        w.sched.d.push_back( Decision{ true , f0 } );
    }
    w.c.set_budget( 200000 );
    std::vector< double > ts; for( long k = 0 ; k <= g.n ; ++k ) ts.push_back( g.t0 + k * g.dt );
    // the basic stepper makes one step per grid interval; make it several with integrate_times
    double dt = g.dt;
    if( drvk == 2 && cat == BASIC ) { dt = g.dt / (double)( 1 + c.draw( 20 ) ); w.dt = dt; }
    V x = start_state( g.t0 );
    bool threw = false; std::string what;
    c.note( "driver=%d cat=%d N=%ld n=%ld dt=%g" , drvk , cat , N , g.n , dt );
    bool by_ref = c.draw( 2 );
    ode::max_step_checker chk( (int)N );
    try
    {
        each_category( c , w , cat , [&]( auto st ) {
            Rhs sys{ &w }; Observer obs{ &w };
            if( by_ref )
                switch( drvk )
                {
                case 0: ode::integrate_const( st , sys , x , g.t0 , g.t1 , dt , obs , std::ref( chk ) ); break;
                case 1: ode::integrate_n_steps( st , sys , x , g.t0 , dt , (size_t)g.n , obs , std::ref( chk ) ); break;
                default: ode::integrate_times( st , sys , x , ts.begin() , ts.end() , dt , obs , std::ref( chk ) ); break;
                }
            else
                switch( drvk )
                {
                case 0: ode::integrate_const( st , sys , x , g.t0 , g.t1 , dt , obs , chk ); break;
                case 1: ode::integrate_n_steps( st , sys , x , g.t0 , dt , (size_t)g.n , obs , chk ); break;
                default: ode::integrate_times( st , sys , x , ts.begin() , ts.end() , dt , obs , chk ); break;
                }
        } );
    }
    catch( const ode::no_progress_error &e ) { threw = true; what = e.what(); }
    long worst = std::max( w.max_gap , w.gap );
    if( threw )
    {
        SIM_CHECK( c , w.gap >= N , "premature-no-progress-error" , "no_progress_error although only %ld steps were made since the last observation (limit %ld)" , w.gap , N );
        SIM_CHECK( c , worst <= N + 1 , "late-no-progress-error" , "no_progress_error only after %ld steps without observation (limit %ld)" , worst , N );
        c.cover( "no_progress_error" ); c.nontrivial();
    }
    else
        SIM_CHECK( c , w.max_gap <= N , "missing-no-progress-error" , "%ld steps between two observations, limit %ld, no error" , w.max_gap , N );
}

// every driver ends within a bounded number of events whatever the rounding of the end time does
SIM_SCENARIO( P04 , terminates , 3 )
{
    World w( c );
    Grid g = draw_grid( c , 12 );
    g.exact = false;
    static const double m[] = { 1 , 10 , 100 , 1e3 , 1e4 , 1e5 };
    double dir = g.dt > 0 ? 1 : -1;
    double a = c.pick( m ) * c.real( -1 , 1 ) , b = c.pick( m ) * c.real( -1 , 1 );
    if( a > b ) std::swap( a , b );
    if( dir < 0 ) std::swap( a , b );
    g.t0 = a; g.t1 = b; g.dt = dir * std::fabs( b - a ) * c.real( 0.02 , 2.5 );
    if( g.dt == 0 || a == b ) throw sim::Skip();
    g.n = 1 + (long)c.draw( 20 );
    set_world( w , g ); w.limit_on = false; w.tol = 1e-10 * w.scale;
    int cat = (int)c.draw( 3 ) , drvk = (int)c.draw( 4 );
    draw_schedule( c , w , 40 );
    w.c.set_budget( 20000 );
    V x = start_state( g.t0 );
    std::vector< double > ts; for( long k = 0 ; k <= g.n ; ++k ) ts.push_back( g.t0 + ( g.t1 - g.t0 ) * k / g.n );
    c.note( "driver=%d cat=%d t0=%.17g t1=%.17g dt=%.17g" , drvk , cat , g.t0 , g.t1 , g.dt );
    each_category( c , w , cat , [&]( auto st ) {
        Rhs sys{ &w }; Observer obs{ &w };
        switch( drvk )
        {
        case 0: ode::integrate_adaptive( st , sys , x , g.t0 , g.t1 , g.dt , obs ); break;
        case 1: ode::integrate_const( st , sys , x , g.t0 , g.t1 , g.dt , obs ); break;
        case 2: ode::integrate_n_steps( st , sys , x , g.t0 , g.dt , (size_t)g.n , obs ); break;
        default: ode::integrate_times( st , sys , x , ts.begin() , ts.end() , g.dt , obs ); break;
        } } );
    if( drvk == 0 ) SIM_CHECK( c , std::fabs( x[0] - g.t1 ) <= w.tol , "final-state" , "state belongs to t=%.17g, end is %.17g" , x[0] , g.t1 );
    if( w.steps > 1 ) c.nontrivial();
}

// ------------------------------------------------------------------ P05
// iterating a range visits what the matching integrate function observes
// single-pass iterators may be copied, and the copy continues the walk
template< class It > static void forward( World &w , It &it )
{
    if( w.c.chance( 60 ) ) { It copy( it ); ++copy; it = copy; w.c.fault( "iterator-copied" ); }
    else ++it;
}
template< class It > static void drain_state( World &w , std::vector< double > &xs , std::pair< It , It > r )
{
    size_t guard = 0;
    for( ; r.first != r.second ; forward( w , r.first ) ) { xs.push_back( (*r.first)[0] ); w.c.log( "it" , xs.back() ); w.c.tick(); if( ++guard > 5000 ) w.c.fail( "no-progress" , "iterator range does not end" ); }
}
template< class It > static void drain_time( World &w , std::vector< double > &xs , std::vector< double > &ts , std::pair< It , It > r )
{
    size_t guard = 0;
    for( ; r.first != r.second ; forward( w , r.first ) ) { xs.push_back( ((*r.first).first)[0] ); ts.push_back( (*r.first).second ); w.c.log( "it" , xs.back() , ts.back() ); w.c.tick(); if( ++guard > 5000 ) w.c.fail( "no-progress" , "iterator range does not end" ); }
}

SIM_SCENARIO( P05 , iterators_sim , 4 )
{
    World w( c );
    Grid g = draw_grid( c , 20 );
    int kind = (int)c.draw( 4 );            // const, n_steps, adaptive, times
    int cat = (int)c.draw( 3 );
    if( kind < 2 && cat == CTRL ) cat = BASIC;          // const / n_step iterators: steppers and dense output
    if( kind == 2 && cat == BASIC ) cat = CTRL;         // adaptive iterators: controlled and dense output
    std::vector< double > ts;
    if( kind == 2 ) { draw_end( c , g ); }
    if( kind == 3 ) draw_times( c , g , ts );
    if( kind == 1 ) g.t1 = g.t0 + g.n * g.dt;
    set_world( w , g ); w.limit_on = !( cat == DENSE && kind < 2 );
    w.c.set_budget( 200000 );
    draw_schedule( c , w );
    bool timed = c.draw( 2 );
    V x = start_state( g.t0 ) , y = x;
    c.note( "iterator kind=%d cat=%d timed=%d t0=%.17g t1=%.17g dt=%.17g" , kind , cat , (int)timed , g.t0 , g.t1 , g.dt );
    // the integrate function first: its observations are the specification
    unsigned pass = (unsigned)c.draw( 2 );
    auto both = [&]( auto st ) {
        Rhs sys{ &w }; Observer obs{ &w };
        switch( kind )
        {
        case 0: ode::integrate_const( st , sys , x , g.t0 , g.t1 , g.dt , obs ); break;
        case 1: ode::integrate_n_steps( st , sys , x , g.t0 , g.dt , (size_t)g.n , obs ); break;
        case 2: break;
        default: ode::integrate_times( st , sys , x , ts.begin() , ts.end() , g.dt , obs ); break;
        } };
    auto adaptive = [&]( auto st ) { Rhs sys{ &w }; Observer obs{ &w }; ode::integrate_adaptive( st , sys , x , g.t0 , g.t1 , g.dt , obs ); };
    if( kind == 3 ) { w.limit_on = false; }
    SimStepper sb; sb.w = &w; SimControlled sc; sc.w = &w; SimDense sd( &w );
    if( kind == 2 ) { if( cat == CTRL ) adaptive( sc ); else adaptive( sd ); }
    else { if( cat == BASIC ) both( sb ); else if( cat == CTRL ) both( sc ); else both( sd ); }
    std::vector< Obs > spec = w.obs; long spec_steps = w.steps;
    w.restart(); w.limit = g.t1;
    std::vector< double > xs , tt;
    Rhs sys{ &w };
    auto iter_nc = [&]( auto st ) {     // const, n
        if( kind == 0 ) { if( timed ) drain_time( w , xs , tt , ode::make_const_step_time_range( st , sys , y , g.t0 , g.t1 , g.dt ) ); else drain_state( w , xs , ode::make_const_step_range( st , sys , y , g.t0 , g.t1 , g.dt ) ); }
        else { if( timed ) drain_time( w , xs , tt , ode::make_n_step_time_range( st , sys , y , g.t0 , g.dt , (size_t)g.n ) ); else drain_state( w , xs , ode::make_n_step_range( st , sys , y , g.t0 , g.dt , (size_t)g.n ) ); } };
    auto iter_a = [&]( auto st ) {
        if( timed ) drain_time( w , xs , tt , ode::make_adaptive_time_range( st , sys , y , g.t0 , g.t1 , g.dt ) ); else drain_state( w , xs , ode::make_adaptive_range( st , sys , y , g.t0 , g.t1 , g.dt ) ); };
    auto iter_t = [&]( auto st ) {
        if( timed ) drain_time( w , xs , tt , ode::make_times_time_range( st , sys , y , ts.begin() , ts.end() , g.dt ) ); else drain_state( w , xs , ode::make_times_range( st , sys , y , ts.begin() , ts.end() , g.dt ) ); };
    SimStepper ib; ib.w = &w; SimControlled ic; ic.w = &w; SimDense id( &w );
    if( kind < 2 ) { if( cat == BASIC ) { if( pass ) iter_nc( boost::ref( ib ) ); else iter_nc( ib ); } else { if( pass ) iter_nc( boost::ref( id ) ); else iter_nc( id ); } }
    else if( kind == 2 ) { if( cat == CTRL ) { if( pass ) iter_a( boost::ref( ic ) ); else iter_a( ic ); } else { if( pass ) iter_a( boost::ref( id ) ); else iter_a( id ); } }
    else { if( cat == BASIC ) { if( pass ) iter_t( boost::ref( ib ) ); else iter_t( ib ); } else if( cat == CTRL ) { if( pass ) iter_t( boost::ref( ic ) ); else iter_t( ic ); } else { if( pass ) iter_t( boost::ref( id ) ); else iter_t( id ); } }
    // comparison.  With dense output the internal steps may differ, with a simulated stepper the solution does not.
    double tol = w.tol;
    if( kind == 2 || ( kind == 3 && cat == CTRL ) )
    {   // adaptive sequences: the visited times need not coincide step by step for dense output near the end
        bool same_len = xs.size() == spec.size();
        if( cat == CTRL && kind == 2 )
            SIM_CHECK( c , same_len , "iterator-count" , "range has %zu elements, integrate_adaptive observes %zu" , xs.size() , spec.size() );
    }
    if( kind != 2 ) SIM_CHECK( c , xs.size() == spec.size() , "iterator-count" , "range has %zu elements, the integrate function observes %zu" , xs.size() , spec.size() );
    if( kind != 2 || cat == CTRL )
        for( size_t k = 0 ; k < xs.size() ; ++k )
        {
            SIM_CHECK( c , std::fabs( xs[k] - spec[k].x ) <= tol , "iterator-state" , "element %zu holds the state of t=%.17g, integrate observes %.17g" , k , xs[k] , spec[k].x );
            if( timed ) SIM_CHECK( c , std::fabs( tt[k] - spec[k].t ) <= ( tol < 1e-13 ? tol : tol * 0.1 ) , "iterator-time" , "element %zu carries t=%.17g, integrate observes at %.17g" , k , tt[k] , spec[k].t );
        }
    else
    {
        SIM_CHECK( c , xs.size() >= 1 && spec.size() >= 1 , "iterator-count" , "empty range" );
        SIM_CHECK( c , xs.size() + 3 >= spec.size() && spec.size() + 3 >= xs.size() , "iterator-count" , "range has %zu elements, integrate_adaptive observes %zu" , xs.size() , spec.size() );
        SIM_CHECK( c , std::fabs( xs[0] - g.t0 ) <= tol , "iterator-state" , "first element holds the state of t=%.17g, start is %.17g" , xs[0] , g.t0 );
        SIM_CHECK( c , std::fabs( xs.back() - spec.back().x ) <= tol , "iterator-state" , "last element holds the state of t=%.17g, integrate_adaptive ends at %.17g" , xs.back() , spec.back().x );
        for( size_t k = 1 ; k < xs.size() ; ++k )
            SIM_CHECK( c , w.dir * ( xs[k] - xs[k-1] ) > 0 , "iterator-order" , "element %zu does not advance" , k );
        if( timed ) for( size_t k = 0 ; k < xs.size() ; ++k )
            SIM_CHECK( c , std::fabs( xs[k] - tt[k] ) <= tol , "iterator-time" , "element %zu carries t=%.17g with the state of %.17g" , k , tt[k] , xs[k] );
    }
    (void)spec_steps;
    if( spec.size() > 2 ) c.nontrivial();
    static const char *nm[] = { "const-iterator" , "n_step-iterator" , "adaptive-iterator" , "times-iterator" };
    c.cover( nm[kind] );
}

// ranges without an element (no time requested), and the sequence of times is read only inside its bounds
SIM_SCENARIO( P05 , times_bounds , 1 )
{
    World w( c );
    Grid g = draw_grid( c , 3 );
    std::vector< double > ts;
    draw_times( c , g , ts );
    set_world( w , g ); w.limit_on = false;
    int cat = (int)c.draw( 3 );
    if( c.chance( 500 ) ) ts.clear();
    bool timed = c.draw( 2 );
    c.note( "times iterator over %zu checked times, cat=%d timed=%d" , ts.size() , cat , (int)timed );
    V x = start_state( g.t0 );
    Seq seq{ &c , &ts };
    SeqIt b( &seq , 0 ) , e( &seq , (std::ptrdiff_t)ts.size() );
    std::vector< double > xs , tt;
    each_category( c , w , cat , [&]( auto st ) {
        Rhs sys{ &w };
        if( timed ) drain_time( w , xs , tt , ode::make_times_time_range( st , sys , x , b , e , g.dt ) );
        else drain_state( w , xs , ode::make_times_range( st , sys , x , b , e , g.dt ) );
    } );
    SIM_CHECK( c , xs.size() == ts.size() , "iterator-count" , "range has %zu elements for %zu times" , xs.size() , ts.size() );
    for( size_t k = 0 ; k < xs.size() ; ++k )
    {
        SIM_CHECK( c , std::fabs( xs[k] - ts[k] ) <= w.tol , "iterator-state" , "element %zu of t=%.17g holds the state of %.17g" , k , ts[k] , xs[k] );
        if( timed && cat == DENSE ) SIM_CHECK( c , tt[k] == ts[k] , "iterator-time" , "element %zu carries %.17g, requested %.17g" , k , tt[k] , ts[k] );
    }
    if( ts.empty() ) SIM_CHECK( c , w.steps == 0 && x == start_state( g.t0 ) , "empty-range" , "%ld steps made for no time" , w.steps );
    c.nontrivial();
    c.cover( ts.empty() ? "times-iterator-empty" : "times-iterator-bounds" );
}

// an end on the wrong side of the start leaves nothing to visit
SIM_SCENARIO( P05 , end_behind_start , 1 )
{
    World w( c );
    Grid g = draw_grid( c , 6 );
    g.t1 = g.t0 - g.dt * ( c.chance( 300 ) ? (double)( 1 + c.draw( 5 ) ) : c.real( 0.01 , 5 ) );
    set_world( w , g ); w.limit_on = false;
    int kind = (int)c.draw( 2 ); bool timed = c.draw( 2 );
    int cat = kind == 0 ? ( c.draw( 2 ) ? DENSE : BASIC ) : ( c.draw( 2 ) ? DENSE : CTRL );
    c.note( "%s range cat=%d timed=%d from %.17g back to %.17g, dt=%.17g" , kind ? "adaptive" : "const step" , cat , (int)timed , g.t0 , g.t1 , g.dt );
    V x = start_state( g.t0 ); std::vector< double > xs , tt; Rhs sys{ &w };
    SimStepper sb; sb.w = &w; SimControlled sc; sc.w = &w; SimDense sd( &w );
    auto con = [&]( auto st ) { if( timed ) drain_time( w , xs , tt , ode::make_const_step_time_range( st , sys , x , g.t0 , g.t1 , g.dt ) ); else drain_state( w , xs , ode::make_const_step_range( st , sys , x , g.t0 , g.t1 , g.dt ) ); };
    auto ada = [&]( auto st ) { if( timed ) drain_time( w , xs , tt , ode::make_adaptive_time_range( st , sys , x , g.t0 , g.t1 , g.dt ) ); else drain_state( w , xs , ode::make_adaptive_range( st , sys , x , g.t0 , g.t1 , g.dt ) ); };
    if( kind ) { if( cat == CTRL ) ada( sc ); else ada( sd ); } else { if( cat == BASIC ) con( sb ); else con( sd ); }
    SIM_CHECK( c , xs.empty() , "empty-range" , "range with its end behind the start visits %zu elements" , xs.size() );
    SIM_CHECK( c , w.steps == 0 && x == start_state( g.t0 ) , "empty-range" , "%ld steps made in a range with its end behind the start" , w.steps );
    c.nontrivial(); c.cover( "end-behind-start" );
}

// ------------------------------------------------------------------ P06
// exceptions of the observer or of the right-hand side leave a driver unchanged and at once
SIM_SCENARIO( P06 , driver_throws , 2 )
{
    World w( c );
    Grid g = draw_grid( c , 10 );
    int drvk = (int)c.draw( 5 ) , cat = (int)c.draw( 3 );
    if( drvk == 4 && cat == CTRL ) cat = BASIC;
    std::vector< double > ts;
    if( drvk == 3 ) draw_times( c , g , ts );
    if( drvk == 1 ) g.t1 = g.t0 + g.n * g.dt;
    set_world( w , g ); w.limit_on = false;
    draw_schedule( c , w , 20 );
    unsigned pass = (unsigned)c.draw( 3 );
    c.note( "driver=%d cat=%d t0=%.17g t1=%.17g dt=%.17g" , drvk , cat , g.t0 , g.t1 , g.dt );
    auto call = [&]( auto st , V &x ) {
        Rhs sys{ &w }; Observer obs{ &w };
        switch( drvk )
        {
        case 0: ode::integrate_const( st , sys , x , g.t0 , g.t1 , g.dt , obs ); break;
        case 1: ode::integrate_n_steps( st , boost::ref( sys ) , x , g.t0 , g.dt , (size_t)g.n , std::ref( obs ) ); break;
        case 2: ode::integrate_adaptive( st , sys , x , g.t0 , g.t1 , g.dt , obs ); break;
        case 3: ode::integrate_times( st , sys , x , ts.begin() , ts.end() , g.dt , boost::ref( obs ) , ode::max_step_checker( 100000 ) ); break;
        default: ode::integrate_const( st , std::ref( sys ) , x , g.t0 , g.t1 , g.dt , obs , ode::max_step_checker( 100000 ) ); break;
        } };
    auto with_st = [&]( V &x ) {
        SimStepper sb; sb.w = &w; SimControlled sc; sc.w = &w; SimDense sd( &w );
        if( cat == BASIC ) { if( pass == 0 ) call( sb , x ); else if( pass == 1 ) call( boost::ref( sb ) , x ); else call( std::ref( sb ) , x ); }
        else if( cat == CTRL ) { if( pass == 0 ) call( sc , x ); else if( pass == 1 ) call( boost::ref( sc ) , x ); else call( std::ref( sc ) , x ); }
        else { if( pass == 0 ) call( sd , x ); else if( pass == 1 ) call( boost::ref( sd ) , x ); else call( std::ref( sd ) , x ); } };
    V x = start_state( g.t0 ) , y = x;
    with_st( x );
    std::vector< Obs > spec = w.obs; long spec_rhs = w.rhs;
    w.restart();
    w.fault_kind = (int)c.draw( 2 );
    if( c.draw( 2 ) ) w.obs_throw_at = (long)c.draw( spec.size() + 1 ); else w.rhs_throw_at = (long)c.draw( (sim::u64)spec_rhs + 1 );
    bool expect = ( w.obs_throw_at >= 0 && w.obs_throw_at < (long)spec.size() ) || ( w.rhs_throw_at >= 0 && w.rhs_throw_at < spec_rhs );
    int caught = -1;
    try { with_st( y ); }
    catch( sim::SimFault &f ) { caught = f.id == 7 ? 0 : 9; }
    catch( sim::SimFaultRaw &f ) { caught = f.id == 7 ? 1 : 9; }
    catch( std::exception & ) { caught = 8; }
    if( expect )
    {
        c.nontrivial();
        SIM_CHECK( c , w.threw , "fault-not-reached" , "the call that should throw was never made" );
        SIM_CHECK( c , caught >= 0 , "exception-swallowed" , "the exception thrown by the user's function did not reach the caller" );
        SIM_CHECK( c , caught == w.fault_kind , "exception-changed" , "the exception arrived as another one" );
        if( w.obs_throw_at >= 0 ) SIM_CHECK( c , (long)w.obs.size() == w.obs_throw_at + 1 , "called-after-exception" , "observer called again after it threw" );
        else SIM_CHECK( c , w.rhs == w.rhs_throw_at + 1 , "called-after-exception" , "right-hand side called again after it threw" );
        if( cat != DENSE )
            SIM_CHECK( c , y.size() == 2 && y[1] == 42 && std::fabs( y[0] - ( w.steps ? w.last_t : g.t0 ) ) <= w.tol , "state-after-exception" , "after the exception the state belongs to t=%.17g, the last accepted step ended at t=%.17g" , y[0] , w.last_t );
    }
    else SIM_CHECK( c , caught < 0 , "unexpected-exception" , "an exception although nothing threw" );
    SIM_CHECK( c , w.obs.size() <= spec.size() , "observation-count" , "more observations than without the exception" );
    for( size_t k = 0 ; k < w.obs.size() ; ++k )
        SIM_CHECK( c , w.obs[k].t == spec[k].t && w.obs[k].x == spec[k].x , "observed-before-exception" , "observation %zu before the exception at t=%.17g, without the exception at t=%.17g" , k , w.obs[k].t , spec[k].t );
}
