// The drivers and iterators with the real steppers (P01, P02, P03, P05).  Oracle: a high-accuracy
// solution at the observed times, and for iterators the observations of the integrate function.
#include "mach.hpp"
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_iterator.hpp>
using namespace mach;
using namespace boost::numeric::odeint;

namespace {
V flow( const Prob &p , const V &x , double t , double h )
{
    static const ref::Tableau T = ref::t_f78();
    int m = 1 + (int)( std::fabs( h ) * 12 );
    V y = x; double q = h / m;
    for( int i = 0 ; i < m ; ++i ) y = ref::rk_step( T , ref_rhs( p ) , y , t + i * q , q ).x;
    return y;
}
struct Ob { V x; double t; };
typedef std::vector< Ob > Obs;
enum Fn { CONST , NSTEPS , ADAPTIVE , TIMES };
struct Job { Ctx &c; Env e; Fn fn; V x; double t0 , t1 , dt , tol; size_t n; std::vector< double > times; double end; Obs obs; V final_; size_t steps; bool walk , state_only; explicit Job( Ctx &cc ) : c( cc ) , e( cc ) { } };
struct Rec { Job *j; void operator()( const V &x , double t ) const { j->c.tick(); j->c.log( "obs" , t ); j->obs.push_back( Ob{ x , t } ); } };

template< class S > void integrate_job( Job &j , S s , bool by_ref )
{
    V x = j.x; Sys sys{ &j.e }; Rec r{ &j };
    switch( j.fn )
    {
    case CONST: j.steps = by_ref ? integrate_const( std::ref( s ) , std::ref( sys ) , x , j.t0 , j.t1 , j.dt , r ) : integrate_const( s , sys , x , j.t0 , j.t1 , j.dt , r ); break;
    case NSTEPS: if( by_ref ) integrate_n_steps( boost::ref( s ) , sys , x , j.t0 , j.dt , j.n , r ); else integrate_n_steps( s , sys , x , j.t0 , j.dt , j.n , r ); break;
    case ADAPTIVE: j.steps = by_ref ? integrate_adaptive( std::ref( s ) , sys , x , j.t0 , j.t1 , j.dt , r ) : integrate_adaptive( s , sys , x , j.t0 , j.t1 , j.dt , r ); break;
    default: j.steps = by_ref ? integrate_times( std::ref( s ) , sys , x , j.times.begin() , j.times.end() , j.dt , r ) : integrate_times( s , sys , x , j.times.begin() , j.times.end() , j.dt , r ); break;
    }
    j.final_ = x;
}
template< class R > void take( Job &j , R r ) { for( auto i = boost::begin( r ) ; i != boost::end( r ) ; ++i ) { j.c.tick(); j.obs.push_back( Ob{ (*i).first , (*i).second } ); } }
template< class R > void take_states( Job &j , R r ) { for( auto i = boost::begin( r ) ; i != boost::end( r ) ; ++i ) { j.c.tick(); j.obs.push_back( Ob{ *i , 0 } ); } }
// const-step and n-step ranges exist for basic and dense-output steppers, adaptive ones for controlled and dense-output steppers
template< class S > void walk_grid( Job &j , S &s , Sys &sys , V &x , std::true_type )
{
    if( j.fn == CONST ) { if( j.state_only ) take_states( j , make_const_step_range( s , sys , x , j.t0 , j.t1 , j.dt ) ); else take( j , make_const_step_time_range( s , sys , x , j.t0 , j.t1 , j.dt ) ); }
    else { if( j.state_only ) take_states( j , make_n_step_range( s , sys , x , j.t0 , j.dt , j.n ) ); else take( j , make_n_step_time_range( s , sys , x , j.t0 , j.dt , j.n ) ); }
}
template< class S > void walk_grid( Job & , S & , Sys & , V & , std::false_type ) { throw sim::Skip(); }
template< class S > void walk_adaptive( Job &j , S &s , Sys &sys , V &x , std::true_type ) { if( j.state_only ) take_states( j , make_adaptive_range( s , sys , x , j.t0 , j.t1 , j.dt ) ); else take( j , make_adaptive_time_range( s , sys , x , j.t0 , j.t1 , j.dt ) ); }
template< class S > void walk_adaptive( Job & , S & , Sys & , V & , std::false_type ) { throw sim::Skip(); }
template< class S > void walk_job( Job &j , S s )
{
    typedef typename base_tag< typename S::stepper_category >::type Tag;
    V x = j.x; Sys sys{ &j.e };
    if( j.fn == TIMES ) { if( j.state_only ) take_states( j , make_times_range( s , sys , x , j.times.begin() , j.times.end() , j.dt ) ); else take( j , make_times_time_range( s , sys , x , j.times.begin() , j.times.end() , j.dt ) ); }
    else if( j.fn == ADAPTIVE ) walk_adaptive( j , s , sys , x , std::integral_constant< bool , !std::is_same< Tag , stepper_tag >::value >() );
    else walk_grid( j , s , sys , x , std::integral_constant< bool , !std::is_same< Tag , controlled_stepper_tag >::value >() );
}

struct Item { const char *name; bool adaptive; double err; std::function< void ( Job & , bool ) > integrate; std::function< void ( Job & ) > walk; };
std::vector< Item > &items() { static std::vector< Item > v; return v; }
template< class Mk > void add( const char *name , bool adaptive , double err , Mk mk )
{
    Item i; i.name = name; i.adaptive = adaptive; i.err = err;
    i.integrate = [mk]( Job &j , bool r ) { integrate_job( j , mk() , r ); };
    i.walk = [mk]( Job &j ) { walk_job( j , mk() ); };
    items().push_back( i );
}
struct InitItems
{
    InitItems()
    {
        add( "runge_kutta4" , false , 2e-3 , []{ return runge_kutta4< V >(); } );
        add( "runge_kutta_dopri5" , false , 1e-3 , []{ return runge_kutta_dopri5< V >(); } );
        add( "adams_bashforth_moulton<4>" , false , 2e-2 , []{ return adams_bashforth_moulton< 4 , V >(); } );
        add( "controlled cash_karp54" , true , 1e-4 , []{ return make_controlled( 1e-8 , 1e-8 , runge_kutta_cash_karp54< V >() ); } );
        add( "controlled dopri5" , true , 1e-4 , []{ return make_controlled( 1e-8 , 1e-8 , runge_kutta_dopri5< V >() ); } );
        add( "controlled fehlberg78" , true , 1e-4 , []{ return make_controlled( 1e-9 , 1e-9 , runge_kutta_fehlberg78< V >() ); } );
        add( "bulirsch_stoer" , true , 1e-4 , []{ return bulirsch_stoer< V >( 1e-8 , 1e-8 ); } );
        add( "controlled_adams_bashforth_moulton<4>" , true , 1e-3 , []{ typedef controlled_adams_bashforth_moulton< adaptive_adams_bashforth_moulton< 4 , V > > S; return S( S::step_adjuster_type( 1e-7 , 1e-7 ) ); } );
        add( "dense dopri5" , true , 1e-4 , []{ return make_dense_output( 1e-8 , 1e-8 , runge_kutta_dopri5< V >() ); } );
        add( "dense dopri5, max_dt 1" , true , 1e-4 , []{ return make_dense_output( 1e-8 , 1e-8 , runge_kutta_dopri5< V >() ); } );
        add( "bulirsch_stoer_dense_out" , true , 1e-3 , []{ return bulirsch_stoer_dense_out< V >( 1e-8 , 1e-8 , 1.0 , 1.0 , 0.0 , true ); } );
    }
} init_items;

void make_job( Ctx &c , Job &j , Fn fn )
{
    j.fn = fn; j.e.p.draw( c ); size_t n = 1 + c.draw( 4 ); j.e.n = n;
    j.x.resize( n ); for( double &v : j.x ) v = c.real( -1.5 , 1.5 );
    double dir = c.chance( 400 ) ? -1 : 1;
    j.t0 = c.chance( 400 ) ? 0 : c.real( -5 , 5 ); j.dt = dir * c.real( 0.01 , 0.1 );
    if( c.chance( 300 ) ) j.dt *= 4;
    j.n = std::min< size_t >( c.draw( 25 ) , (size_t)( 5.0 / std::fabs( j.dt ) ) );    // longer backward integrations grow without bound
    j.t1 = j.t0 + ( j.n + c.real( 0.1 , 0.9 ) ) * j.dt; if( fn == ADAPTIVE ) j.t1 = j.t0 + dir * c.real( 0.001 , 2 );
    j.times.push_back( j.t0 );
    for( size_t i = 0 ; i < j.n && std::fabs( j.times.back() - j.t0 ) < 4 ; ++i ) j.times.push_back( j.times.back() + ( c.chance( 150 ) ? 0 : c.chance( 300 ) ? j.dt * c.real( 0.01 , 0.3 ) : j.dt * c.real( 0.3 , 5 ) ) );
    j.steps = 0; j.walk = false; j.state_only = false;
    c.note( "t0 %.17g t1 %.17g dt %.17g n %zu size %zu" , j.t0 , j.t1 , j.dt , j.n , n );
}
void check_obs( Job &j , const Item &it , const Obs &obs )
{
    Ctx &c = j.c;
    std::vector< double > want;
    if( j.fn == CONST || j.fn == NSTEPS ) for( size_t i = 0 ; i <= j.n ; ++i ) want.push_back( j.t0 + i * j.dt );
    if( j.fn == TIMES ) want = j.times;
    if( j.fn != ADAPTIVE && obs.size() != want.size() ) c.fail( "observation-count" , "%s: %zu observations, expected %zu" , it.name , obs.size() , want.size() );
    if( j.fn == ADAPTIVE && ( obs.empty() || obs[0].t != j.t0 || std::fabs( obs.back().t - j.t1 ) > 1e-12 * ( 1 + std::fabs( j.t1 ) ) ) ) c.fail( "observation-ends" , "%s: the observations do not begin at the start and end at the end" , it.name );
    V y = j.x; double ty = j.t0;
    // the tolerances are far above what the methods need here and far below the change over one time step
    double stretch = it.adaptive ? 1 : std::pow( std::fabs( j.dt ) / 0.1 , 2.0 ) + 0.01;
    for( size_t i = 0 ; i < obs.size() ; ++i )
    {
        double t = obs[i].t;
        if( j.fn != ADAPTIVE && std::fabs( t - want[i] ) > 1e-12 * ( 1 + std::fabs( want[i] ) ) ) c.fail( "observation-time" , "%s: observation %zu at t=%.17g, expected %.17g" , it.name , i , t , want[i] );
        y = flow( j.e.p , y , ty , t - ty ); ty = t;
        double amp = ( 1 + ref::maxabs( y ) ) * std::exp( 1.5 * std::fabs( t - j.t0 ) );
        if( amp > 3000 ) break;
        if( !( ref::maxdiff( obs[i].x , y ) <= it.err * stretch * amp ) ) c.fail( "observed-state" , "%s: the state observed at t=%.17g differs from the solution by %g" , it.name , t , ref::maxdiff( obs[i].x , y ) );
    }
}
void drive( Ctx &c , Fn fn )
{
    const Item &it = items()[ c.draw( items().size() ) ];
    c.note( "stepper %s" , it.name ); c.cover( it.name );
    Job j( c ); make_job( c , j , fn );
    it.integrate( j , c.chance( 400 ) );
    check_obs( j , it , j.obs );
    if( !j.obs.empty() && ref::maxdiff( j.final_ , j.obs.back().x ) > 1e-3 * ( 1 + ref::maxabs( j.final_ ) ) ) c.fail( "final-state" , "%s: the final state is not the last observed one" , it.name );
    if( j.obs.size() > 2 ) c.nontrivial();
    c.elapse( j.obs.empty() ? 0 : j.obs.back().t - j.t0 );
}
}
SIM_SCENARIO( P01 , real_grid , 1 ) { drive( c , c.chance( 500 ) ? CONST : NSTEPS ); }
SIM_SCENARIO( P02 , real_times , 1 ) { drive( c , TIMES ); }
SIM_SCENARIO( P03 , real_adaptive , 1 ) { drive( c , ADAPTIVE ); }
SIM_SCENARIO( P05 , real_iterators , 1 )
{
    const Item &it = items()[ c.draw( items().size() ) ];
    c.note( "stepper %s" , it.name ); c.cover( it.name );
    static const Fn fns[] = { CONST , NSTEPS , ADAPTIVE , TIMES };
    Job j( c ); make_job( c , j , c.pick( fns ) );
    if( j.fn == ADAPTIVE && !it.adaptive ) throw sim::Skip();
    it.integrate( j , false );
    Obs a = j.obs; j.obs.clear();
    j.state_only = c.chance( 300 );
    it.walk( j );
    if( j.obs.size() != a.size() ) c.fail( "iterator-count" , "%s: the range has %zu elements, the integrate function made %zu observations" , it.name , j.obs.size() , a.size() );
    for( size_t i = 0 ; i < a.size() ; ++i )
    {
        if( !j.state_only && std::fabs( j.obs[i].t - a[i].t ) > 1e-12 * ( 1 + std::fabs( a[i].t ) ) ) c.fail( "iterator-time" , "%s: element %zu at t=%.17g, observed at t=%.17g" , it.name , i , j.obs[i].t , a[i].t );
        if( !( ref::maxdiff( j.obs[i].x , a[i].x ) <= ( it.adaptive ? std::max( 1e-5 , it.err ) : 1e-10 ) * ( 1 + ref::maxabs( a[i].x ) ) ) ) c.fail( "iterator-state" , "%s: element %zu differs from the state observed at t=%.17g by %g" , it.name , i , a[i].t , ref::maxdiff( j.obs[i].x , a[i].x ) );
        c.log( "element" , j.obs[i].t ); c.logvec( "x" , j.obs[i].x );
    }
    if( a.size() > 2 ) c.nontrivial();
}
