// Simulated steppers and observers for the integrate / iterator drivers.
//
// The drivers (real code) are run against steppers whose accept / reject / step-size
// decisions come from the simulated schedule.  The state of a simulated stepper is the
// time it represents (dx/dt = 1), so "the state handed out belongs to the time handed
// out" is checkable at every event.
#ifndef VERIF_DRV_COMMON_HPP
#define VERIF_DRV_COMMON_HPP
#include "core.hpp"
#include <boost/numeric/odeint.hpp>
#include <boost/ref.hpp>
#include <algorithm>
#include <vector>
#include <memory>

namespace drv {
namespace ode = boost::numeric::odeint;
using sim::Ctx;
typedef std::vector< double > V;

struct Decision { bool reject; double f; };
struct Schedule
{
    std::vector< Decision > d;
    Decision at( size_t i ) const { return i < d.size() ? d[i] : Decision{ false , 1.0 }; }
};

struct Obs { double t; double x; };

struct World
{
    Ctx &c;
    double t0 = 0 , t1 = 0 , dt = 0 , dir = 1 , scale = 1;
    double tol = 0;                     // time tolerance
    Schedule sched;
    size_t pos = 0;                     // next schedule entry
    std::vector< Obs > obs;
    long steps = 0 , tries = 0 , consecutive_fail = 0 , max_fail = 0 , rhs = 0 , gap = 0 , max_gap = 0;
    std::vector< long > gaps;           // accepted steps before each observation
    bool recover = true;                // the schedule may not shrink the step size without bound
    bool lineage = false;               // all tries must be made by one stepper
    bool limit_on = true;               // steps must not pass t1
    double limit = 0;
    double last_t = 0;                  // time the stepper is at
    bool started = false;
    long obs_throw_at = -1 , rhs_throw_at = -1; bool threw = false;
    int fault_kind = 0;
    explicit World( Ctx &ctx ) : c( ctx ) { }

    void restart() { pos = 0; obs.clear(); gaps.clear(); steps = tries = consecutive_fail = max_fail = rhs = gap = max_gap = 0; started = false; threw = false; }
    void boom( const char *k )
    {
        threw = true; c.fault( k );
        if( fault_kind ) throw sim::SimFaultRaw{ 7 };
        throw sim::SimFault( 7 );
    }
    void observe( double t , double x )
    {
        c.tick();
        long k = (long)obs.size();
        obs.push_back( Obs{ t , x } );
        gaps.push_back( gap ); if( gap > max_gap ) max_gap = gap; gap = 0;
        c.log( "obs" , t , x );
        if( k == obs_throw_at ) boom( "observer-throws" );
    }
    Decision next( double h )
    {
        Decision q = sched.at( pos );
        bool done = pos >= sched.d.size();
        ++pos;
        double m = std::fabs( h ) , m0 = std::fabs( dt );
        if( done ) q.f = m < 0.5 * m0 ? 5.0 : 1.0;
        else if( recover && q.f < 1 && m * q.f < 1e-4 * m0 ) { q.reject = false; q.f = 1.0; }
        return q;
    }
    void step_from( double t , double dt_ , double x0 )
    {
        c.tick();
        SIM_CHECK( c , dt_ == dt_ && t == t , "nan-step" , "step requested at t=%g with dt=%g" , t , dt_ );
        SIM_CHECK( c , dt_ * dir > 0 , "step-direction" , "step requested at t=%.17g with dt=%.17g while integrating %s" , t , dt_ , dir > 0 ? "forward" : "backward" );
        SIM_CHECK( c , std::fabs( x0 - t ) <= tol , "state-time-mismatch" , "step started at t=%.17g with a state belonging to t=%.17g" , t , x0 );
        if( limit_on )
            SIM_CHECK( c , dir * ( t + dt_ - limit ) <= tol , "step-past-end" , "step from t=%.17g with dt=%.17g passes the end %.17g" , t , dt_ , limit );
        if( started )
            SIM_CHECK( c , std::fabs( t - last_t ) <= tol , "time-jump" , "step starts at t=%.17g but the previous one ended at t=%.17g" , t , last_t );
        started = true; last_t = t;
    }
    void accepted( double t_new , double dt_ )
    {
        last_t = t_new; ++steps; ++gap; consecutive_fail = 0; c.elapse( dt_ ); c.log( "acc" , t_new , dt_ );
    }
    void rejected( double dt_ )
    {
        ++consecutive_fail; if( consecutive_fail > max_fail ) max_fail = consecutive_fail; c.fault( "step-rejected" ); c.log( "rej" , dt_ );
    }
};

struct Rhs      // dx/dt = 1 for the time component, second component counts nothing
{
    World *w;
    template< class X , class D > void operator()( const X & , D &d , double t ) const
    {
        w->c.tick();
        long k = w->rhs++;
        if( k == w->rhs_throw_at ) w->boom( "rhs-throws" );
        d[0] = 1; d[1] = 0;
    }
};

struct Observer
{
    World *w;
    template< class X > void operator()( const X &x , double t ) const { w->observe( t , x[0] ); }
};

struct SimStepper
{
    typedef V state_type; typedef V deriv_type; typedef double value_type; typedef double time_type;
    typedef ode::stepper_tag stepper_category; typedef unsigned short order_type;
    World *w;
    order_type order() const { return 1; }
    template< class S , class X > void do_step( S system , X &x , double t , double dt )
    {
        typename ode::unwrap_reference< S >::type &sys = system;
        w->step_from( t , dt , x[0] );
        V d( 2 ); sys( x , d , t );
        x[0] += dt * d[0];
        w->accepted( t + dt , dt );
    }
};

struct SimControlled
{
    typedef V state_type; typedef V deriv_type; typedef double value_type; typedef double time_type;
    typedef ode::controlled_stepper_tag stepper_category;
    World *w;
    long tried = 0;     // by this object and those it was copied from
    template< class S , class X > ode::controlled_step_result try_step( S system , X &x , double &t , double &dt )
    {
        typename ode::unwrap_reference< S >::type &sys = system;
        w->step_from( t , dt , x[0] );
        if( w->lineage ) SIM_CHECK( w->c , tried == w->tries , "other-stepper" , "step %ld from t=%.17g is made by a stepper that has made %ld tries before" , w->tries , t , tried );
        ++w->tries; ++tried;
        Decision q = w->next( dt );
        V d( 2 ); sys( x , d , t );
        if( q.reject ) { dt *= q.f; w->rejected( dt ); return ode::fail; }
        x[0] += dt * d[0];
        t += dt;
        w->accepted( t , dt );
        dt *= q.f;
        return ode::success;
    }
};

struct SimDense
{
    typedef V state_type; typedef V deriv_type; typedef double value_type; typedef double time_type;
    typedef ode::dense_output_stepper_tag stepper_category;
    World *w;
    V xo , xc; double to = 0 , tc = 0 , h = 0; bool init = false , stepped = false;
    explicit SimDense( World *w_ ) : w( w_ ) { }
    template< class X > void initialize( const X &x0 , double t0 , double dt0 )
    {
        w->c.tick();
        V tmp( x0.begin() , x0.end() );
        SIM_CHECK( w->c , std::fabs( tmp[0] - t0 ) <= w->tol , "state-time-mismatch" , "stepper initialised at t=%.17g with a state belonging to t=%.17g" , t0 , tmp[0] );
        xc = tmp; tc = t0; h = dt0; init = true; stepped = false;
        w->c.log( "init" , t0 , dt0 );
    }
    template< class S > std::pair< double , double > do_step( S system )
    {
        typename ode::unwrap_reference< S >::type &sys = system;
        SIM_CHECK( w->c , init , "step-before-init" , "do_step before initialize" );
        w->step_from( tc , h , xc[0] );
        Decision q = w->next( h );
        V d( 2 ); sys( xc , d , tc );
        while( q.reject ) { h *= q.f; ++w->tries; w->rejected( h ); w->c.tick(); q = w->next( h ); }
        ++w->tries;
        xo = xc; to = tc;
        xc[0] += h * d[0]; tc += h; stepped = true;
        w->accepted( tc , h );
        h *= q.f;
        return std::make_pair( to , tc );
    }
    template< class X > void calc_state( double t , X &x ) const
    {
        w->c.tick();
        SIM_CHECK( w->c , stepped , "interpolate-before-step" , "calc_state(%.17g) although no step has been made since initialize (t=%.17g)" , t , tc );
        double s = w->dir;
        SIM_CHECK( w->c , s * ( t - to ) >= -w->tol && s * ( tc - t ) >= -w->tol , "extrapolated" , "calc_state(%.17g) outside the last step [%.17g,%.17g]" , t , to , tc );
        double th = ( t - to ) / ( tc - to );
        x[0] = xo[0] + th * ( xc[0] - xo[0] ); x[1] = xc[1];
    }
    template< class X > void calc_state( double t , const X &x ) const { calc_state( t , const_cast< X & >( x ) ); }
    const V &current_state() const { return xc; }
    double current_time() const { return tc; }
    const V &previous_state() const { return xo; }
    double previous_time() const { return to; }
    double current_time_step() const { return h; }
};

// ------------------------------------------------------------------ inputs
inline void draw_schedule( Ctx &c , World &w , int max_len = 60 )
{
    // swarm: each run enables a subset of the decision kinds
    bool rejects = c.chance( 700 ) , grow = c.chance( 700 ) , shrink_on_success = c.chance( 400 ) , bursts = c.chance( 300 );
    size_t n = (size_t)c.draw( max_len );
    static const double shrink[] = { 0.5 , 0.2 , 0.9 , 0.25 , 0.1 };
    static const double growth[] = { 1.0 , 2.0 , 5.0 , 1.5 , 1.1 };
    for( size_t i = 0 ; i < n ; ++i )
    {
        Decision q{ false , 1.0 };
        if( rejects && c.chance( 300 ) )
        {
            q.reject = true; q.f = c.pick( shrink );
            if( bursts ) { size_t k = c.draw( 4 ); for( size_t j = 0 ; j < k ; ++j ) w.sched.d.push_back( q ); }
        }
        else if( grow && c.chance( 600 ) ) q.f = c.pick( growth );
        else if( shrink_on_success && c.chance( 500 ) ) q.f = c.pick( shrink );
        w.sched.d.push_back( q );
    }
}

struct Grid { double t0 , dt , t1; bool exact; long n; };
// start, interval and end; in exact mode every grid time is a dyadic number
inline Grid draw_grid( Ctx &c , long max_n )
{
    Grid g;
    double dir = c.draw( 2 ) ? -1 : 1;
    g.exact = c.draw( 4 ) != 3;
    long n = 1 + (long)c.draw( max_n );
    if( c.chance( 40 ) ) n = 0;
    if( g.exact )
    {
        g.t0 = (double)c.range( -64 , 64 ) / 8;
        if( c.chance( 500 ) ) g.t0 = 0;
        g.dt = dir * (double)( 1 + c.draw( 24 ) ) / 16;
        g.n = n;
        double part = (double)c.draw( 16 ) / 16;            // end somewhere inside the next interval
        g.t1 = g.t0 + ( (double)n + part ) * g.dt;
    }
    else
    {
        static const double mag[] = { 1 , 0.01 , 100 , 1e-4 , 1e3 };
        double m = c.pick( mag );
        g.t0 = c.chance( 300 ) ? 0 : c.real( -1 , 1 ) * c.pick( mag );
        g.dt = dir * m * c.real( 0.05 , 1.0 );
        g.n = n;
        g.t1 = g.t0 + ( (double)n + c.real( 0.05 , 0.95 ) ) * g.dt;
    }
    return g;
}
inline void set_world( World &w , const Grid &g )
{
    w.t0 = g.t0; w.t1 = g.t1; w.dt = g.dt; w.dir = g.dt > 0 ? 1 : -1; w.limit = g.t1;
    w.scale = std::max( std::max( std::fabs( g.t0 ) , std::fabs( g.t1 ) ) , std::fabs( g.dt ) );
    w.tol = 1e-12 * w.scale + 1e-15 + 1e-9 * std::fabs( g.dt ) * 1e-3;
}

inline void draw_times( Ctx &c , Grid &g , std::vector< double > &ts )
{
    long n = 1 + (long)c.draw( 12 );
    bool dup = c.chance( 250 ) , exact = g.exact;
    double t = g.t0 , step = std::fabs( g.dt ) , dir = g.dt > 0 ? 1 : -1;
    ts.clear();
    if( !exact && c.chance( 300 ) )
    {   // magnitudes from tiny to huge on both sides of zero: the sums of step sizes do not hit the requested times exactly
        static const double m[] = { 1 , 0.1 , 100 , 1e4 , 1e-3 , 1e-5 };
        for( long i = 0 ; i < n ; ++i ) { double v = c.pick( m ) * c.real( 0.1 , 1 ); ts.push_back( c.chance( 500 ) ? v : -v ); }
        std::sort( ts.begin() , ts.end() );
        if( dir < 0 ) std::reverse( ts.begin() , ts.end() );
        for( long i = 1 ; i < n ; ++i ) if( dup && c.chance( 300 ) ) ts[i] = ts[i-1];
        g.t0 = ts.front(); g.t1 = ts.back();
        g.dt = dir * ( std::fabs( g.t1 - g.t0 ) + 1e-3 ) * c.real( 0.01 , 3 );
        return;
    }
    ts.push_back( t );
    for( long i = 1 ; i < n ; ++i )
    {
        double d;
        if( exact ) d = step * (double)( 1 + c.draw( 64 ) ) / 16;
        else
        {
            static const double m[] = { 1 , 0.1 , 10 , 1e-3 , 30 };
            d = step * c.pick( m ) * c.real( 0.1 , 1 );
        }
        if( dup && c.chance( 400 ) ) d = 0;
        t += dir * d;
        ts.push_back( t );
    }
    g.t1 = ts.back();
}

// call a driver with the stepper by value, by std::ref or by boost::ref
template< class St , class F > void with_passing( Ctx &c , St st , F f )
{
    switch( c.draw( 3 ) )
    {
    case 0: f( st ); break;
    case 1: f( boost::ref( st ) ); break;
    default: f( std::ref( st ) ); break;
    }
}

} // namespace drv
#endif
