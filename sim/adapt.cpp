// P08: controlled and dense-output steppers as a whole: tolerance kept, limits kept, recovery
// after disturbances.  Oracle: a high-accuracy solution, and an undisturbed replica.
#include "mach.hpp"
using namespace mach;

namespace {
// the flow of the problem from (x,t) to t+h, to about 1e-14 (stiff: small substeps)
V flow( const Prob &p , const V &x , double t , double h )
{
    static const ref::Tableau T = ref::t_f78();
    int m = 1 + (int)( std::fabs( h ) * ( 12 + 6 * p.stiff ) );
    V y = x; double q = h / m;
    for( int i = 0 ; i < m ; ++i ) y = ref::rk_step( T , ref_rhs( p ) , y , t + i * q , q ).x;
    return y;
}
bool controlled( const Traits &t ) { return t.controlled; }
const Entry &pick_machine( Ctx &c )
{
    std::vector< const Entry * > v;
    for( const Entry &e : machines() ) if( controlled( e.tr ) ) v.push_back( &e );
    const Entry &e = *v[ c.draw( v.size() ) ];
    c.note( "stepper %s" , e.name ); c.cover( e.name );
    return e;
}
struct Setup { Env e; std::unique_ptr< Machine > m; V x; double t , dt , dir , eps , mx; size_t n; explicit Setup( Ctx &c ) : e( c ) { } };
void setup( Ctx &c , Setup &s )
{
    const Entry &en = pick_machine( c );
    s.m.reset( en.make() ); s.m->name = en.name;
    s.e.p.draw( c ); s.n = 1 + c.draw( 4 ); s.e.n = s.n;
    s.dir = c.chance( 350 ) ? -1 : 1;
    if( en.tr.stiff && c.chance( 400 ) ) { s.dir = 1; s.e.p.stiff = c.real( 1 , 30 ); }
    static const double tols[] = { 1e-6 , 1e-4 , 1e-5 , 1e-8 , 1e-3 };
    s.eps = c.pick( tols ); s.mx = c.chance( 300 ) ? s.dir * c.real( 0.05 , 0.5 ) : 0;
    if( !s.m->configure( s.eps , s.mx ) ) throw sim::Skip();
    s.x.resize( s.n ); for( double &v : s.x ) v = c.real( -1.5 , 1.5 );
    s.t = c.chance( 300 ) ? 0 : c.real( -5 , 5 ); s.dt = s.dir * c.real( 0.02 , 1.0 );
    if( c.chance( 200 ) ) s.dt *= 0.01;
    if( s.mx && s.m->tr.dense && std::fabs( s.dt ) > std::fabs( s.mx ) ) s.dt = s.mx;
    s.m->begin( s.e , s.x , s.t , s.dt );
    c.note( "eps %g max_dt %g n %zu stiff %g" , s.eps , s.mx , s.n , s.e.p.stiff );
}
double tol_of( const Setup &s , const V &a , const V &b , double h )
{
    double m = std::max( ref::maxabs( a ) , ref::maxabs( b ) ); (void)h;
    return s.eps * ( 1 + m );
}
SIM_SCENARIO( P08 , tolerance , 3 )
{
    Setup s( c ); setup( c , s );
    std::vector< double > ratios; double t0 = s.t , T = c.real( 0.3 , 3 ); int acc = 0 , rej = 0 , tries = 0;
    while( std::fabs( s.t - t0 ) < T && tries < 4000 )
    {
        V x0 = s.x; double tt = s.t , h = s.dt; ++tries;
        bool ok = c.chance( 300 ) ? s.m->step2( s.e , s.x , s.t , s.dt ) : s.m->step( s.e , s.x , s.t , s.dt );
        c.log( ok ? "accepted" : "rejected" , s.t , s.dt ); c.logvec( "x" , s.x );
        if( !ok ) { ++rej; c.fault( "step-rejected" ); continue; }
        ++acc; double hh = s.t - tt; (void)h;
        if( !( hh * s.dir > 0 ) ) c.fail( "direction" , "%s: a step went from t=%.17g to %.17g while integrating %s" , s.m->name , tt , s.t , s.dir > 0 ? "forward" : "backward" );
        if( s.mx && std::fabs( hh ) > std::fabs( s.mx ) * ( 1.12 ) ) c.fail( "max-dt" , "%s: a step of size %g was made with max_dt=%g" , s.m->name , hh , s.mx );
        V ex = flow( s.e.p , x0 , tt , hh );
        double le = ref::maxdiff( s.x , ex ) , to = tol_of( s , x0 , s.x , hh );
        ratios.push_back( le / to );
        if( ref::maxabs( s.x ) > 100 ) break;
    }
    if( acc > 2 && rej + ( s.mx != 0 ) ) c.nontrivial();
    c.elapse( s.t - t0 );
    // one step may be lucky with its estimate (the worst ones are left out), a sequence of steps is not
    std::sort( ratios.begin() , ratios.end() );
    size_t use = ratios.size() - std::min( ratios.size() , 1 + ratios.size() / 8 ); double mean = 0;
    for( size_t i = 0 ; i < use ; ++i ) mean += ratios[i] / use;
    double margin = acc >= 12 ? 6 : acc >= 8 ? 25 : acc >= 4 ? 100 : 5000;
    if( use && mean > margin ) c.fail( "tolerance-missed" , "%s: %d accepted steps have local errors %.3g times the tolerance %g on average" , s.m->name , acc , mean , s.eps );
    if( !ratios.empty() && ratios.back() > 1e5 ) c.fail( "tolerance-missed" , "%s: an accepted step has a local error of %.3g times the tolerance %g" , s.m->name , ratios.back() , s.eps );
    if( acc && !( std::fabs( s.t - t0 ) >= T ) && ref::maxabs( s.x ) <= 100 ) c.fail( "no-progress" , "%s: %d tries (%d rejected) advanced a smooth problem by %g only (eps %g)" , s.m->name , tries , rej , s.t - t0 , s.eps );
}

SIM_SCENARIO( P08 , recovery , 2 )
{
    Setup s( c ); setup( c , s );
    if( s.eps < 1e-6 ) s.eps = 1e-6 , s.m->configure( s.eps , s.mx ) , s.m->begin( s.e , s.x , s.t , s.dt );
    int warm = (int)c.draw( 6 ) , tries = 0;
    for( int i = 0 ; i < warm ; ++i ) s.m->step( s.e , s.x , s.t , s.dt );
    static const double sp[] = { 10 , 1e3 , -1e3 , 1e6 , -1 };
    s.e.spike = c.pick( sp ); s.e.spike_from = s.e.total + (long)c.draw( 12 ); s.e.spike_to = s.e.spike_from + 1 + (long)c.draw( 30 );
    c.note( "disturbance %g, evaluations %ld..%ld" , s.e.spike , s.e.spike_from , s.e.spike_to );
    while( s.e.total <= s.e.spike_to + 1 )
    {
        if( ++tries > 300 ) c.fail( "no-progress" , "%s: %d tries during a disturbance of %ld evaluations" , s.m->name , tries , s.e.spike_to - s.e.spike_from );
        bool ok = s.m->step( s.e , s.x , s.t , s.dt );
        c.log( ok ? "accepted" : "rejected" , s.t , s.dt ); if( !ok ) c.fault( "step-rejected" );
        if( !( s.dt * s.dir > 0 ) ) c.fail( "dt-sign" , "%s: dt became %g" , s.m->name , s.dt );
        if( !( ref::maxabs( s.x ) < 1e9 ) ) return;
    }
    if( ref::maxabs( s.x ) > 50 ) { c.cover( "thrown-far-away" ); return; }
    c.nontrivial();
    // the disturbance is over: compare with a fresh stepper from here
    std::unique_ptr< Machine > f( s.m->clone() ); f->name = s.m->name; f->configure( s.eps , s.mx );
    Env e2( c ); e2.p = s.e.p; e2.n = s.n;
    V y = s.x; double t = s.t , dt = s.dir * 0.05 , t0 = s.t , T = 1.0; int a = 0 , b = 0;
    f->begin( e2 , y , t , dt );
    while( std::fabs( t - t0 ) < T && a < 3000 ) { f->step( e2 , y , t , dt ); ++a; }
    double dt0 = s.dt;
    while( std::fabs( s.t - t0 ) < T )
    {
        if( ++b > 5 * a + 200 ) c.fail( "no-recovery" , "%s: after a disturbance (dt=%g left) %d tries did not advance by %g, a fresh stepper needs %d" , s.m->name , dt0 , b , T , a );
        bool ok = s.m->step( s.e , s.x , s.t , s.dt );
        c.log( ok ? "accepted" : "rejected" , s.t , s.dt ); if( !ok ) c.fault( "step-rejected" );
    }
    c.elapse( T );
}
}
