// P20: symplectic Runge-Kutta-Nystroem steppers and velocity Verlet: the published compositions, every call form, long runs.
#include "mach.hpp"
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
using sim::Ctx;
namespace ode = boost::numeric::odeint;

namespace {
typedef std::vector< double > V;
typedef std::pair< V , V > P;
typedef ode::range_algebra RA; typedef ode::default_operations DO; typedef ode::always_resizer AR;

// H = sum p^2 / 2 m_i  +  sum w_i q_i^2 / 2  +  sum k_i ( 1 - cos( q_i - q_(i+1) ) )
struct Ham
{
    V m , w , k; bool unit_mass = true;
    size_t n() const { return w.size(); }
    void force( const V &q , V &f ) const
    {
        size_t N = n(); f.assign( N , 0 );
        for( size_t i = 0 ; i < N ; ++i )
        {
            f[i] -= w[i] * q[i];
            if( N > 1 ) { size_t j = ( i + 1 ) % N; double s = k[i] * std::sin( q[i] - q[j] ); f[i] -= s; f[j] += s; }
        }
    }
    void velo( const V &p , V &v ) const { v.resize( p.size() ); for( size_t i = 0 ; i < p.size() ; ++i ) v[i] = unit_mass ? p[i] : p[i] / m[i]; }
    double energy( const V &q , const V &p ) const
    {
        double e = 0; size_t N = n();
        for( size_t i = 0 ; i < N ; ++i )
        {
            e += 0.5 * p[i] * p[i] / ( unit_mass ? 1 : m[i] ) + 0.5 * w[i] * q[i] * q[i];
            if( N > 1 ) e += k[i] * ( 1 - std::cos( q[i] - q[( i + 1 ) % N] ) );
        }
        return e;
    }
};
Ham draw_ham( Ctx &c , size_t n )
{
    Ham h; h.unit_mass = c.chance( 500 );
    for( size_t i = 0 ; i < n ; ++i ) { h.m.push_back( c.real( 0.4 , 3 ) ); h.w.push_back( c.real( 0.2 , 2 ) ); h.k.push_back( c.chance( 700 ) ? c.real( -0.3 , 0.3 ) : 0 ); }
    return h;
}
struct Box
{
    Ctx &c; Ham h; long calls = 0 , throw_at = -1;
    Box( Ctx &c_ ) : c( c_ ) { }
    void enter( size_t a , size_t b )
    {
        c.tick();
        if( a != h.n() || b != h.n() ) c.fail( "argument-size" , "system function called with sizes %zu and %zu for %zu degrees of freedom" , a , b , h.n() );
        if( throw_at >= 0 && calls == throw_at ) { throw_at = -1; c.fault( "rhs-throws" ); throw sim::SimFault( 7 ); }
        ++calls;
    }
};
struct Force { Box *b; void operator()( const V &q , V &f ) const { b->enter( q.size() , f.size() ); V o; b->h.force( q , o ); std::copy( o.begin() , o.end() , f.begin() ); } };
struct Velo { Box *b; void operator()( const V &p , V &v ) const { b->enter( p.size() , v.size() ); V o; b->h.velo( p , o ); std::copy( o.begin() , o.end() , v.begin() ); } };

// published coefficients: drift a_l, then kick b_l
struct Comp { const char *name; V a , b; int order; bool symmetric; };
const Comp &comp( int which )
{
    static Comp t[3]; static bool init = false;
    if( !init )
    {
        init = true;
        t[0] = Comp{ "symplectic_euler" , { 1 } , { 1 } , 1 , false };
        double a1 = 0.40518861839525227722 , a2 = -0.28714404081652408900 , a3 = 0.5 - ( a1 + a2 ) , b1 = -3. / 73 , b2 = 17. / 59 , b3 = 1 - 2 * ( b1 + b2 );
        t[1] = Comp{ "symplectic_rkn_sb3a_mclachlan" , { a1 , a2 , a3 , a3 , a2 , a1 } , { b1 , b2 , b3 , b2 , b1 , 0 } , 4 , true };
        double z = std::sqrt( 7. / 8 ) / 3;
        t[2] = Comp{ "symplectic_rkn_sb3a_m4_mclachlan" , { 0.5 - z , -1. / 3 + z , 2. / 3 , -1. / 3 + z , 0.5 - z } , { 1 , -0.5 , -0.5 , 1 , 0 } , 4 , true };
    }
    return t[which];
}
void ref_step( const Comp &k , const Ham &h , V &q , V &p , double dt )
{
    V v , f;
    for( size_t l = 0 ; l < k.a.size() ; ++l )
    {
        h.velo( p , v ); for( size_t i = 0 ; i < q.size() ; ++i ) q[i] += k.a[l] * dt * v[i];
        h.force( q , f ); for( size_t i = 0 ; i < q.size() ; ++i ) p[i] += k.b[l] * dt * f[i];
    }
}

template< class F > void pick_stepper( Ctx &c , int which , bool resizing , F f )
{
    switch( which * 2 + resizing )
    {
    case 0: f( ode::symplectic_euler< V >() ); break;
    case 1: f( ode::symplectic_euler< V , V , double , V , V , double , RA , DO , AR >() ); break;
    case 2: f( ode::symplectic_rkn_sb3a_mclachlan< V >() ); break;
    case 3: f( ode::symplectic_rkn_sb3a_mclachlan< V , V , double , V , V , double , RA , DO , AR >() ); break;
    case 4: f( ode::symplectic_rkn_sb3a_m4_mclachlan< V >() ); break;
    default: f( ode::symplectic_rkn_sb3a_m4_mclachlan< V , V , double , V , V , double , RA , DO , AR >() ); break;
    }
    (void)c;
}

// one step through one of the call forms; returns the result in q, p
template< class S > void call( Box &b , S &s , int form , const V &q0 , const V &p0 , V &q , V &p , double t , double dt )
{
    Force fo{ &b }; Velo ve{ &b }; auto both = std::make_pair( ve , fo );
    P x( q0 , p0 ) , o( V( q0.size() , 777.0 ) , V( q0.size() , 777.0 ) ); q = q0; p = p0; bool in_place = true;
    switch( form )
    {
    case 0: s.do_step( both , x , t , dt ); q = x.first; p = x.second; break;
    case 1: s.do_step( std::make_pair( std::ref( ve ) , std::ref( fo ) ) , std::make_pair( std::ref( q ) , std::ref( p ) ) , t , dt ); break;
    case 2: s.do_step( both , q , p , t , dt ); break;
    case 3: s.do_step( both , x , t , o , dt ); q = o.first; p = o.second; in_place = false; break;
    case 4: s.do_step( std::ref( both ) , x , t , dt ); q = x.first; p = x.second; break;
    case 5: { auto in = std::make_pair( std::ref( x.first ) , std::ref( x.second ) ); auto out = std::make_pair( std::ref( q ) , std::ref( p ) );
              s.do_step( boost::ref( both ) , in , t , out , dt ); in_place = false; } break;
    // dq/dt = p
    case 6: s.do_step( fo , x , t , dt ); q = x.first; p = x.second; break;
    case 7: s.do_step( std::ref( fo ) , q , p , t , dt ); break;
    case 8: s.do_step( boost::ref( fo ) , std::make_pair( boost::ref( q ) , boost::ref( p ) ) , t , dt ); break;
    default: s.do_step( fo , x , t , o , dt ); q = o.first; p = o.second; in_place = false; break;
    }
    if( !in_place && ( x.first != q0 || x.second != p0 ) ) b.c.fail( "input-modified" , "an out-of-place step (form %d) changed its input" , form );
}

SIM_SCENARIO( P20 , composition , 3 )
{
    Box b( c ); int which = (int)c.draw( 3 ); const Comp &k = comp( which );
    bool resizing = c.chance( 600 );
    pick_stepper( c , which , resizing , [&]( auto s0 ) {
        auto s = s0;
        if( s.order() != k.order ) c.fail( "order" , "%s: order() is %d" , k.name , (int)s.order() );
        size_t n = 1 + c.draw( 6 ); int steps = 1 + (int)c.draw( 8 );
        b.h = draw_ham( c , n ); V q , p; double t = c.real( -3 , 3 );
        for( size_t i = 0 ; i < n ; ++i ) { q.push_back( c.real( -2 , 2 ) ); p.push_back( c.real( -2 , 2 ) ); }
        for( int i = 0 ; i < steps ; ++i )
        {
            if( i && resizing && c.chance( 300 ) )
            {
                n = 1 + c.draw( 6 ); b.h = draw_ham( c , n ); q.assign( n , 0 ); p.assign( n , 0 ); c.fault( "size-change" );
                for( size_t j = 0 ; j < n ; ++j ) { q[j] = c.real( -2 , 2 ); p[j] = c.real( -2 , 2 ); }
            }
            static const double mag[] = { 0.3 , 0.03 , 1 , 1e-4 };
            double dt = c.pick( mag ) * c.real( 0.1 , 1 ) * ( c.chance( 400 ) ? -1 : 1 ); if( c.chance( 30 ) ) dt = 0;
            int form = b.h.unit_mass ? (int)c.draw( 10 ) : (int)c.draw( 6 );
            if( c.chance( 120 ) )
            {
                V qq , pp; b.throw_at = b.calls + (long)c.draw( 6 );
                try { call( b , s , form , q , p , qq , pp , t , dt ); } catch( sim::SimFault & ) { }
                b.throw_at = -1;
            }
            if( c.chance( 100 ) ) { auto cp( s ); call( b , cp , form , q , p , q , p , t , 0.0 ); }
            V rq = q , rp = p; ref_step( k , b.h , rq , rp , dt );
            V oq , op; b.calls = 0;
            call( b , s , form , q , p , oq , op , t , dt );
            double sc = 1 + ref::maxabs( rq ) + ref::maxabs( rp );
            double d = std::max( ref::maxdiff( oq , rq ) , ref::maxdiff( op , rp ) );
            if( !( d <= 1e-12 * sc ) ) c.fail( "composition" , "%s (form %d): n=%zu dt=%.17g differs from the published composition by %.3g" , k.name , form , n , dt , d );
            c.log( "form" , (double)form ); c.log( "n" , (double)n ); c.logvec( "q" , oq ); c.elapse( std::fabs( dt ) );
            if( dt < 0 ) c.cover( "backward" );
            if( i ) c.nontrivial();
            q = oq; p = op; t += dt;
            if( !( ref::maxabs( q ) + ref::maxabs( p ) < 1e6 ) ) throw sim::Skip();
        }
        c.cover( k.name );
    } );
}

// --------------------------------------------------------------------------------------------- velocity Verlet
struct Accel
{
    Box *b; V drive; double w , damp;
    void eval( const V &q , const V &v , V &a , double t ) const { b->h.force( q , a ); for( size_t i = 0 ; i < a.size() ; ++i ) a[i] += drive[i % drive.size()] * std::cos( w * t ) - damp * v[i]; }
    void operator()( const V &q , const V &v , V &a , double t ) const { b->enter( q.size() , a.size() ); if( v.size() != q.size() ) b->c.fail( "argument-size" , "velocity of size %zu" , v.size() ); V o; eval( q , v , o , t ); std::copy( o.begin() , o.end() , a.begin() ); }
};
template< class S > void verlet( Ctx &c , bool resizing )
{
    S s; Box b( c ); Accel f; f.b = &b; f.drive = { c.real( -1 , 1 ) , c.real( -1 , 1 ) }; f.w = c.real( 0.2 , 3 ); f.damp = c.chance( 400 ) ? c.real( 0 , 0.5 ) : 0;
    size_t n = 1 + c.draw( 6 ); int steps = 2 + (int)c.draw( 10 );
    b.h = draw_ham( c , n ); V q , p , a; double t = c.real( -3 , 3 ); bool known = false; size_t ssize = 0;    // size of the stepper's buffers
    for( size_t i = 0 ; i < n ; ++i ) { q.push_back( c.real( -2 , 2 ) ); p.push_back( c.real( -2 , 2 ) ); }
    for( int i = 0 ; i < steps ; ++i )
    {
        double dt = c.real( 0.01 , 0.3 ) * ( c.chance( 300 ) ? -1 : 1 );
        int ev = (int)c.draw( 12 );
        if( ev == 0 && resizing )
        {
            size_t old = n; while( n == old ) n = 1 + c.draw( 6 );
            b.h = draw_ham( c , n ); q.assign( n , 0 ); p.assign( n , 0 ); known = false; c.fault( "size-change" ); if( n == ssize ) s.reset();
            for( size_t j = 0 ; j < n ; ++j ) { q[j] = c.real( -2 , 2 ); p[j] = c.real( -2 , 2 ); }
        }
        else if( ev == 1 )
        {   // another state: the stepper has to be told
            for( size_t j = 0 ; j < n ; ++j ) { q[j] = c.real( -2 , 2 ); p[j] = c.real( -2 , 2 ); }
            s.reset(); known = false; c.fault( "state-changed" );
            if( s.is_initialized() ) c.fail( "is-initialized" , "velocity_verlet: initialised after reset()" );
        }
        else if( ev == 2 ) { s.initialize( f , q , p , t ); f.eval( q , p , a , t ); known = true; if( !s.is_initialized() ) c.fail( "is-initialized" , "velocity_verlet: not initialised after initialize()" ); }
        else if( ev == 3 ) { a.assign( n , 0 ); for( double &v : a ) v = c.real( -1 , 1 ); s.initialize( a ); known = true; }
        else if( ev == 4 && s.is_initialized() == known )
        {
            V qq = q , pp = p; b.throw_at = b.calls + (long)c.draw( 2 ); bool th = false;
            try { s.do_step( f , std::make_pair( std::ref( qq ) , std::ref( pp ) ) , t , dt ); } catch( sim::SimFault & ) { th = true; }
            b.throw_at = -1; (void)th;
            s.reset(); known = false; ssize = n;
        }
        if( !known ) { f.eval( q , p , a , t ); }
        V rq = q , rp = p , ra;
        for( size_t j = 0 ; j < n ; ++j ) rq[j] = q[j] + dt * p[j] + 0.5 * dt * dt * a[j];
        f.eval( rq , p , ra , t + dt );
        for( size_t j = 0 ; j < n ; ++j ) rp[j] = p[j] + 0.5 * dt * ( a[j] + ra[j] );
        V oq = q , op = p; bool stateful = true; int form = (int)c.draw( 5 ); b.calls = 0;
        switch( form )
        {
        case 0: { P x( q , p ); s.do_step( f , x , t , dt ); oq = x.first; op = x.second; } break;
        case 1: s.do_step( std::ref( f ) , std::make_pair( std::ref( oq ) , std::ref( op ) ) , t , dt ); break;
        case 2: { P x( q , p ); s.do_step( boost::ref( f ) , x , t , dt ); oq = x.first; op = x.second; } break;
        case 3: { auto pr = std::make_pair( boost::ref( oq ) , boost::ref( op ) ); s.do_step( f , pr , t , dt ); } break;
        default: { V ao( n ); V q0 = q , p0 = p , a0 = a; s.do_step( f , q0 , p0 , a0 , oq , op , ao , t , dt ); stateful = false;
                   if( q0 != q || p0 != p || a0 != a ) c.fail( "input-modified" , "velocity_verlet: the out-of-place step changed its input" );
                   if( !( ref::maxdiff( ao , ra ) <= 1e-12 * ( 1 + ref::maxabs( ra ) ) ) ) c.fail( "verlet-acceleration" , "velocity_verlet: wrong acceleration returned" ); } break;
        }
        long want = form == 4 ? 1 : known ? 1 : 2;
        if( b.calls > want ) c.fail( "verlet-evaluations" , "velocity_verlet: %ld evaluations, expected %ld" , b.calls , want );
        double d = std::max( ref::maxdiff( oq , rq ) , ref::maxdiff( op , rp ) );
        if( !( d <= 1e-12 * ( 1 + ref::maxabs( rq ) + ref::maxabs( rp ) ) ) ) c.fail( "verlet-step" , "velocity_verlet (form %d): step %d at t=%.17g dt=%.17g differs from the method by %.3g" , form , i , t , dt , d );
        c.log( "form" , (double)form ); c.log( "event" , (double)ev ); c.logvec( "q" , oq );
        if( stateful || known ) ssize = n;
        if( stateful ) { a = ra; known = true; q = oq; p = op; t += dt; }
        else if( known ) { q = oq; p = op; t += dt; a = ra; s.initialize( a ); }
        c.elapse( std::fabs( dt ) ); c.nontrivial(); if( dt < 0 ) c.cover( "backward" );
    }
    c.cover( "velocity_verlet" );
}
SIM_SCENARIO( P20 , verlet_history , 2 )
{
    if( c.chance( 500 ) ) verlet< ode::velocity_verlet< V > >( c , false );
    else verlet< ode::velocity_verlet< V , V , double , V , double , double , RA , DO , AR > >( c , true );
}

// --------------------------------------------------------------------------------------------- long runs
struct Step
{
    Box *b; int which;
    template< class S > void steps( S &s , V &q , V &p , double t , double dt , long n ) const { for( long i = 0 ; i < n ; ++i ) { s.do_step( std::make_pair( Velo{ b } , Force{ b } ) , q , p , t , dt ); t += dt; } }
};
template< class F > void any_stepper( Ctx &c , Box &b , int which , F f )     // f( advance( q , p , dt , n ) )
{
    if( which < 3 ) pick_stepper( c , which , false , [&]( auto s ) {
        f( [&]( V &q , V &p , double dt , long n ) {
            for( long i = 0 ; i < n ; ++i ) s.do_step( std::make_pair( Velo{ &b } , Force{ &b } ) , q , p , 0.0 , dt ); } ); } );
    else
    {
        b.h.unit_mass = true;
        ode::velocity_verlet< V > s; Accel a; a.b = &b; a.drive = { 0 , 0 }; a.w = a.damp = 0;
        f( [&]( V &q , V &p , double dt , long n ) { s.reset(); for( long i = 0 ; i < n ; ++i ) s.do_step( a , std::make_pair( std::ref( q ) , std::ref( p ) ) , 0.0 , dt ); } );
    }
}
const char *name_of( int w ) { return w < 3 ? comp( w ).name : "velocity_verlet"; }

SIM_SCENARIO( P20 , energy_and_reversal , 1 )
{
    Box b( c ); int which = (int)c.draw( 4 ); size_t n = 1 + c.draw( 3 );
    b.h = draw_ham( c , n ); V q , p; for( size_t i = 0 ; i < n ; ++i ) { q.push_back( c.real( -1 , 1 ) ); p.push_back( c.real( -1 , 1 ) ); }
    double dt = c.real( 0.02 , 0.15 ) * ( c.chance( 400 ) ? -1 : 1 ); long N = 200 + (long)c.draw( 600 );
    V q0 = q , p0 = p;
    any_stepper( c , b , which , [&]( auto adv ) {
        double e0 = b.h.energy( q , p ) , m1 = 0 , m2 = 0; const int L = 20;
        double s1 = 0 , s2 = 0;
        for( int k = 0 ; k < 2 * L ; ++k )
        {
            double worst = 0 , sum = 0;
            for( long i = 0 ; i < N / L ; ++i ) { adv( q , p , dt , 1 ); double d = b.h.energy( q , p ) - e0; if( !( std::fabs( d ) <= worst ) ) worst = std::fabs( d ); sum += d; }
            ( k < L ? m1 : m2 ) = std::max( k < L ? m1 : m2 , worst ); ( k < L ? s1 : s2 ) += sum / ( N / L ) / L;
        }
        // bounded: the error of the second half is that of the first half
        double fl = 1e-12 * ( 1 + e0 ) * N;
        static const double amp[] = { 3 , 1 , 1 , 2 };      // size of the oscillation: C h^p (w-scaled), p >= 1
        int ord = which < 3 ? comp( which ).order : 2;
        double bound = amp[which] * ( 1 + e0 ) * std::pow( std::fabs( dt ) * 2 , ord ) + fl;
        if( !( m1 <= bound ) || !( m2 <= bound ) ) c.fail( "energy" , "%s: energy error %.3g / %.3g over %ld steps of %.3g (bound %.3g)" , name_of( which ) , m1 , m2 , N , dt , bound );
        if( !( m2 <= 8 * m1 + fl ) ) c.fail( "energy-drift" , "%s: the energy error grows from %.3g to %.3g over %ld steps of %.3g" , name_of( which ) , m1 , m2 , 2 * N , dt );
        if( !( std::fabs( s2 - s1 ) <= 1.2 * std::max( m1 , m2 ) + fl ) ) c.fail( "energy-drift" , "%s: the mean energy error moves from %.3g to %.3g" , name_of( which ) , s1 , s2 );
        if( which != 0 )
        {   // symmetric methods run back
            q0 = q; p0 = p; const long N = 40;     // few steps: the motion may be chaotic
            adv( q , p , dt , N ); adv( q , p , -dt , N );
            double d = std::max( ref::maxdiff( q , q0 ) , ref::maxdiff( p , p0 ) );
            if( !( d <= 1e-9 ) ) c.fail( "reversal" , "%s: %ld steps forward and back end %.3g away from the start" , name_of( which ) , N , d );
        }
        c.log( "m" , m1 , m2 ); c.elapse( 2 * N * std::fabs( dt ) ); c.nontrivial();
    } );
    c.cover( name_of( which ) );
}
// the map of k steps preserves the symplectic form; the global error has the order of the method
SIM_SCENARIO( P20 , symplectic_map , 1 )
{
    Box b( c ); int which = (int)c.draw( 4 ); size_t n = 1 + c.draw( 3 );
    b.h = draw_ham( c , n ); V q , p; for( size_t i = 0 ; i < n ; ++i ) { q.push_back( c.real( -1 , 1 ) ); p.push_back( c.real( -1 , 1 ) ); }
    double dt = c.real( 0.05 , 0.4 ) * ( c.chance( 400 ) ? -1 : 1 ); long K = 1 + (long)c.draw( 6 );
    any_stepper( c , b , which , [&]( auto adv ) {
        size_t D = 2 * n; std::vector< V > M( D , V( D ) );
        const double e = 1e-4;
        for( size_t j = 0 ; j < D ; ++j )
        {
            V r[4]; static const double w[] = { -2 , -1 , 1 , 2 };
            for( int s = 0 ; s < 4 ; ++s ) { V a = q , d = p; ( j < n ? a[j] : d[j - n] ) += w[s] * e; adv( a , d , dt , K ); a.insert( a.end() , d.begin() , d.end() ); r[s] = a; }
            for( size_t i = 0 ; i < D ; ++i ) M[i][j] = ( 8 * ( r[2][i] - r[1][i] ) - ( r[3][i] - r[0][i] ) ) / ( 12 * e );
        }
        for( size_t a = 0 ; a < D ; ++a ) for( size_t d = 0 ; d < D ; ++d )
        {
            double s = 0; for( size_t i = 0 ; i < n ; ++i ) s += M[i][a] * M[i + n][d] - M[i + n][a] * M[i][d];
            double want = d == a + n ? 1 : a == d + n ? -1 : 0;
            if( !( std::fabs( s - want ) <= 1e-8 ) ) c.fail( "symplectic" , "%s: %ld steps of %.3g change the symplectic form (%zu,%zu): %.12g" , name_of( which ) , K , dt , a , d , s );
        }
        // order
        int ord = which < 3 ? comp( which ).order : 2; double T = c.real( 1 , 2 ) * ( dt > 0 ? 1 : -1 );
        auto err = [&]( long N , const V &eq , const V &ep ) { V a = q , d = p; adv( a , d , T / N , N ); return std::max( ref::maxdiff( a , eq ) , ref::maxdiff( d , ep ) ); };
        V eq = q , ep = p;
        { // exact: classical Runge-Kutta with tiny steps
            long N = 3000; double h = T / N; V f;
            auto rhs = [&]( const V &x , V &d ) { V a( x.begin() , x.begin() + n ) , bb( x.begin() + n , x.end() ) , v , fo; b.h.velo( bb , v ); b.h.force( a , fo ); d = v; d.insert( d.end() , fo.begin() , fo.end() ); };
            V x = q; x.insert( x.end() , p.begin() , p.end() ); V k1 , k2 , k3 , k4 , y;
            for( long i = 0 ; i < N ; ++i )
            {
                rhs( x , k1 ); y = x; for( size_t j = 0 ; j < D ; ++j ) y[j] += h / 2 * k1[j];
                rhs( y , k2 ); y = x; for( size_t j = 0 ; j < D ; ++j ) y[j] += h / 2 * k2[j];
                rhs( y , k3 ); y = x; for( size_t j = 0 ; j < D ; ++j ) y[j] += h * k3[j];
                rhs( y , k4 ); for( size_t j = 0 ; j < D ; ++j ) x[j] += h / 6 * ( k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j] );
            }
            eq.assign( x.begin() , x.begin() + n ); ep.assign( x.begin() + n , x.end() );
        }
        double e1 = err( 8 , eq , ep ) , e2 = err( 32 , eq , ep ) , need = std::pow( 4.0 , ord ) * 0.3;
        if( e2 > 1e-10 && e1 > need * e2 * 0.2 && !( e1 >= need * e2 ) ) { double e3 = err( 128 , eq , ep ); if( e3 > 1e-11 && !( e2 >= need * e3 ) ) c.fail( "order" , "%s: errors %.3g %.3g %.3g with 8, 32 and 128 steps: not of order %d" , name_of( which ) , e1 , e2 , e3 , ord ); }
        else if( e2 > 1e-10 && !( e1 >= need * e2 ) ) { double e3 = err( 128 , eq , ep ) , e4 = err( 512 , eq , ep ); if( e4 > 1e-11 && !( e3 >= need * e4 ) && !( e2 >= need * e3 ) ) c.fail( "order" , "%s: errors %.3g %.3g %.3g %.3g: not of order %d" , name_of( which ) , e1 , e2 , e3 , e4 , ord ); }
        c.log( "e" , e1 , e2 ); c.nontrivial(); c.elapse( std::fabs( T ) );
    } );
    c.cover( name_of( which ) );
}
} // namespace
