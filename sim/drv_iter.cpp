// P23: the integrate functions made of iterators (boost/numeric/odeint/iterator/integrate), which take the
// place of those of boost/numeric/odeint/integrate when included first, against simulated steppers.
#include <boost/numeric/odeint/iterator/integrate/integrate.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/iterator/integrate/observer_collection.hpp>
#include "drv_common.hpp"
#include <list>
using namespace drv;

namespace {
V start_state( double t0 ) { V x( 2 ); x[0] = t0; x[1] = 42; return x; }
enum Cat { BASIC = 0 , CTRL = 1 , DENSE = 2 };
template< class F > void each_category( Ctx &c , World &w , int cat , F f )
{
    if( cat == BASIC ) { SimStepper st; st.w = &w; with_passing( c , st , f ); }
    else if( cat == CTRL ) { w.lineage = true; SimControlled st; st.w = &w; with_passing( c , st , f ); }
    else { SimDense st( &w ); with_passing( c , st , f ); }
}
const char *cat_name( int cat ) { return cat == BASIC ? "basic" : cat == CTRL ? "controlled" : "dense"; }
void check_end( Ctx &c , World &w , const V &x , double t )
{
    SIM_CHECK( c , x.size() == 2 && x[1] == 42 , "state-corrupted" , "final state has size %zu / marker %g" , x.size() , x[1] );
    SIM_CHECK( c , std::fabs( x[0] - t ) <= w.tol , "final-state" , "state after the integration belongs to t=%.17g, expected t=%.17g" , x[0] , t );
}
void check_obs( Ctx &c , World &w )
{
    for( size_t k = 0 ; k < w.obs.size() ; ++k )
        SIM_CHECK( c , std::fabs( w.obs[k].x - w.obs[k].t ) <= w.tol , "observed-state" , "observation %zu at t=%.17g shows the state of t=%.17g" , k , w.obs[k].t , w.obs[k].x );
}
void check_grid( Ctx &c , World &w , const Grid &g )
{
    check_obs( c , w );
    for( size_t k = 0 ; k < w.obs.size() && (long)k <= g.n ; ++k )
    {
        double e = g.t0 + (double)k * g.dt , tt = g.exact ? 0 : 8 * 2.3e-16 * w.scale + w.tol * 0.01;
        SIM_CHECK( c , std::fabs( w.obs[k].t - e ) <= tt , "observation-time" , "observation %zu at t=%.17g, expected t0+%zu*dt=%.17g" , k , w.obs[k].t , k , e );
    }
    SIM_CHECK( c , (long)w.obs.size() == g.n + 1 , "observation-count" , "%zu observations, expected %ld (t0=%.17g dt=%.17g t1=%.17g)" , w.obs.size() , g.n + 1 , g.t0 , g.dt , g.t1 );
}
struct Coll { ode::observer_collection< V , double > *o; void operator()( const V &x , double t ) const { (*o)( x , t ); } };

SIM_SCENARIO( P23 , const_and_n_steps , 3 )
{
    World w( c );
    Grid g = draw_grid( c , 30 );
    bool nsteps = c.draw( 2 ); if( nsteps ) g.t1 = g.t0 + g.n * g.dt;
    set_world( w , g );
    int cat = (int)c.draw( 3 ) , variant = (int)c.draw( 5 );
    if( cat == DENSE ) w.limit_on = false;     // the iterators let the dense stepper step over the end
    draw_schedule( c , w );
    V x = start_state( g.t0 ); double ret = 0;
    c.note( "%s %s variant=%d t0=%.17g t1=%.17g dt=%.17g" , nsteps ? "integrate_n_steps" : "integrate_const" , cat_name( cat ) , variant , g.t0 , g.t1 , g.dt );
    each_category( c , w , cat , [&]( auto st ) {
        Rhs sys{ &w }; Observer obs{ &w }; ode::observer_collection< V , double > col; col.observers().push_back( obs );
        if( nsteps ) switch( variant )
        {
        case 0: ret = ode::integrate_n_steps( st , sys , x , g.t0 , g.dt , (size_t)g.n , obs ); break;
        case 1: ret = ode::integrate_n_steps( st , boost::ref( sys ) , x , g.t0 , g.dt , (size_t)g.n , std::ref( obs ) ); break;
        case 2: ret = ode::integrate_n_steps( st , std::ref( sys ) , x , g.t0 , g.dt , (size_t)g.n , boost::ref( obs ) ); break;
        case 3: ret = ode::integrate_n_steps( st , sys , x , g.t0 , g.dt , (size_t)g.n , boost::ref( col ) ); break;
        default: ret = ode::integrate_n_steps( st , sys , x , g.t0 , g.dt , (size_t)g.n ); break;
        }
        else switch( variant )
        {
        case 0: ret = ode::integrate_const( st , sys , x , g.t0 , g.t1 , g.dt , obs ); break;
        case 1: ret = ode::integrate_const( st , boost::ref( sys ) , x , g.t0 , g.t1 , g.dt , std::ref( obs ) ); break;
        case 2: ret = ode::integrate_const( st , std::ref( sys ) , x , g.t0 , g.t1 , g.dt , boost::ref( obs ) ); break;
        case 3: ret = ode::integrate_const( st , sys , x , g.t0 , g.t1 , g.dt , std::ref( col ) ); break;
        default: ret = ode::integrate_const( st , sys , x , g.t0 , g.t1 , g.dt ); break;
        } } );
    if( variant < 4 ) check_grid( c , w , g );
    check_end( c , w , x , g.t0 + g.n * g.dt );
    if( nsteps ) SIM_CHECK( c , std::fabs( ret - g.t1 ) <= ( g.exact ? 0 : w.tol ) , "end-time" , "returned end time %.17g, expected %.17g" , ret , g.t1 );
    else if( cat == BASIC || variant < 4 ) SIM_CHECK( c , ret == (double)g.n , "step-count" , "returned %g, the grid has %ld steps" , ret , g.n );
    if( cat == BASIC ) SIM_CHECK( c , w.steps == g.n , "step-count" , "%ld steps made on a grid of %ld" , w.steps , g.n );
    if( w.steps > 1 ) c.nontrivial();
    c.cover( ( std::string( nsteps ? "n_steps-" : "const-" ) + cat_name( cat ) ).c_str() );
}

SIM_SCENARIO( P23 , adaptive , 3 )
{
    World w( c );
    Grid g = draw_grid( c , 30 );
    if( g.exact && c.chance( 300 ) ) g.t1 = g.t0 + g.n * g.dt;
    set_world( w , g ); w.c.set_budget( 100000 );
    int cat = (int)c.draw( 3 ) , variant = (int)c.draw( 4 );
    draw_schedule( c , w );
    V x = start_state( g.t0 ); size_t ret = 0; bool empty = !( w.dir * ( g.t1 - g.t0 ) > 0 );
    c.note( "integrate_adaptive %s variant=%d t0=%.17g t1=%.17g dt=%.17g" , cat_name( cat ) , variant , g.t0 , g.t1 , g.dt );
    each_category( c , w , cat , [&]( auto st ) {
        Rhs sys{ &w }; Observer obs{ &w };
        switch( variant )
        {
        case 0: ret = ode::integrate_adaptive( st , sys , x , g.t0 , g.t1 , g.dt , obs ); break;
        case 1: ret = ode::integrate_adaptive( st , std::ref( sys ) , x , g.t0 , g.t1 , g.dt , boost::ref( obs ) ); break;
        case 2: ret = ode::integrate_adaptive( st , boost::ref( sys ) , x , g.t0 , g.t1 , g.dt , std::ref( obs ) ); break;
        default: ret = ode::integrate_adaptive( st , sys , x , g.t0 , g.t1 , g.dt ); break;
        } } );
    double tend = empty ? g.t0 : g.t1;
    if( variant < 3 )
    {
        check_obs( c , w );
        SIM_CHECK( c , w.obs.size() >= 1 && w.obs[0].t == g.t0 , "observation-time" , "first observation not at t0" );
        for( size_t k = 1 ; k < w.obs.size() ; ++k )
        {
            SIM_CHECK( c , w.dir * ( w.obs[k].t - w.obs[k-1].t ) > 0 , "observation-order" , "observation %zu at t=%.17g after t=%.17g" , k , w.obs[k].t , w.obs[k-1].t );
            SIM_CHECK( c , w.gaps[k] == 1 , "observation-missed" , "%ld steps between observations %zu and %zu" , w.gaps[k] , k - 1 , k );
        }
        SIM_CHECK( c , std::fabs( w.obs.back().t - tend ) <= w.tol , "end-time" , "last observation at t=%.17g, end time is %.17g" , w.obs.back().t , tend );
        SIM_CHECK( c , (long)w.obs.size() == w.steps + 1 , "observation-count" , "%zu observations for %ld steps" , w.obs.size() , w.steps );
    }
    check_end( c , w , x , tend );
    SIM_CHECK( c , (long)ret == w.steps , "step-count" , "returned %zu steps, %ld were made" , ret , w.steps );
    if( w.steps > 1 ) c.nontrivial();
    c.cover( ( std::string( "adaptive-" ) + cat_name( cat ) ).c_str() );
}

// the times as a list; dense output needs times with random access
template< class Stepper > auto by_list( Stepper st , Rhs sys , V &x , const std::vector< double > &ts , double dt , Observer obs , int )
{
    typedef typename ode::unwrap_reference< Stepper >::type stepper_type;
    typedef std::is_same< typename stepper_type::stepper_category , ode::dense_output_stepper_tag > dense;
    std::conditional_t< dense::value , std::vector< double > , std::list< double > > l( ts.begin() , ts.end() );
    return ode::integrate_times( st , sys , x , l.begin() , l.end() , dt , obs );
}
SIM_SCENARIO( P23 , times , 3 )
{
    World w( c );
    Grid g = draw_grid( c , 3 );
    std::vector< double > ts; draw_times( c , g , ts );
    if( c.chance( 40 ) ) ts.clear();
    set_world( w , g ); w.limit_on = false;
    int cat = (int)c.draw( 3 ) , variant = (int)c.draw( 4 );
    draw_schedule( c , w );
    V x = start_state( g.t0 ); size_t ret = 0;
    c.note( "integrate_times %s variant=%d n=%zu t0=%.17g t1=%.17g dt=%.17g" , cat_name( cat ) , variant , ts.size() , g.t0 , g.t1 , g.dt );
    each_category( c , w , cat , [&]( auto st ) {
        Rhs sys{ &w }; Observer obs{ &w };
        switch( variant )
        {
        case 0: ret = ode::integrate_times( st , sys , x , ts.begin() , ts.end() , g.dt , obs ); break;
        case 1: ret = ode::integrate_times( st , boost::ref( sys ) , x , ts , g.dt , std::ref( obs ) ); break;
        case 2: ret = ode::integrate_times( st , std::ref( sys ) , x , ts.begin() , ts.end() , g.dt , boost::ref( obs ) ); break;
        default: ret = by_list( st , sys , x , ts , g.dt , obs , cat ); break;
        } } );
    check_obs( c , w );
    for( size_t k = 0 ; k < w.obs.size() && k < ts.size() ; ++k )
        SIM_CHECK( c , std::fabs( w.obs[k].t - ts[k] ) <= w.tol * 0.01 + ( cat == CTRL ? w.tol : 0 ) , "observation-time" , "observation %zu at t=%.17g, requested %.17g" , k , w.obs[k].t , ts[k] );
    SIM_CHECK( c , w.obs.size() == ts.size() , "observation-count" , "%zu observations for %zu requested times" , w.obs.size() , ts.size() );
    if( !ts.empty() ) check_end( c , w , x , ts.back() );
    else SIM_CHECK( c , ret == 0 && w.steps == 0 && x == start_state( g.t0 ) , "empty-range" , "%zu returned and %ld steps made for no time" , ret , w.steps );
    if( !ts.empty() ) SIM_CHECK( c , ret == ts.size() - 1 , "step-count" , "returned %zu for %zu times" , ret , ts.size() );
    if( w.steps > 1 && ts.size() > 2 ) c.nontrivial();
    c.cover( ( std::string( "times-" ) + cat_name( cat ) ).c_str() );
}
}
