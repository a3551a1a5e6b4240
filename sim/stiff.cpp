// P19: implicit steppers (rosenbrock4, implicit_euler) against their methods; histories on one stepper object, every call form,
// Jacobians that need pivoting, singular Newton matrices, functions that throw; stiff integrations through the drivers.
#include "mach.hpp"
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
using sim::Ctx;
namespace ode = boost::numeric::odeint;

namespace {
typedef std::vector< double > V;
typedef boost::numeric::ublas::vector< double > UV;
typedef boost::numeric::ublas::matrix< double > UM;
UV uv( const V &x ) { UV u( x.size() ); std::copy( x.begin() , x.end() , u.begin() ); return u; }
V vu( const UV &u ) { return V( u.begin() , u.end() ); }

// x_i' = sum_j a_ij x_j + s_i sin( x_(i+1) + phase t ) + b_i cos( w t )
struct Model
{
    ref::M a; V s , b; double w = 1 , phase = 0;
    void f( const V &x , V &d , double t ) const
    {
        size_t n = x.size(); d.assign( n , 0 );
        for( size_t i = 0 ; i < n ; ++i )
        {
            double v = s[i] * std::sin( x[( i + 1 ) % n] + phase * t ) + b[i] * std::cos( w * t );
            for( size_t j = 0 ; j < n ; ++j ) v += a[i][j] * x[j];
            d[i] = v;
        }
    }
    void jac( const V &x , ref::M &J , double t , V &ft ) const
    {
        size_t n = x.size(); J = a; ft.assign( n , 0 );
        for( size_t i = 0 ; i < n ; ++i )
        {
            double q = s[i] * std::cos( x[( i + 1 ) % n] + phase * t );
            J[i][( i + 1 ) % n] += q; ft[i] = q * phase - b[i] * w * std::sin( w * t );
        }
    }
};
struct Box
{
    Ctx &c; Model m; size_t n; long calls = 0 , throw_at = -1; std::vector< double > ts; bool jac_seen = false;
    Box( Ctx &c_ ) : c( c_ ) { }
    void enter( size_t a , size_t b2 )
    {
        c.tick();
        if( a != n || b2 != n ) c.fail( "argument-size" , "user function called with sizes %zu and %zu for a state of size %zu" , a , b2 , n );
        if( throw_at >= 0 && calls == throw_at ) { throw_at = -1; c.fault( "rhs-throws" ); throw sim::SimFault( 7 ); }
        ++calls;
    }
};
struct Fn { Box *b; void operator()( const UV &x , UV &d , double t ) const
    { b->enter( x.size() , d.size() ); V o; b->m.f( vu( x ) , o , t ); b->ts.push_back( t ); std::copy( o.begin() , o.end() , d.begin() ); } };
struct Jn
{
    Box *b;
    void fill( const UV &x , UM &J , double t , UV *ft ) const
    {
        b->enter( x.size() , J.size1() );
        if( J.size2() != b->n || ( ft && ft->size() != b->n ) ) b->c.fail( "jacobian-size" , "Jacobian called with a %zux%zu matrix for size %zu" , J.size1() , J.size2() , b->n );
        ref::M m; V f; b->m.jac( vu( x ) , m , t , f ); b->ts.push_back( t );
        for( size_t i = 0 ; i < b->n ; ++i ) for( size_t j = 0 ; j < b->n ; ++j ) J( i , j ) = m[i][j];
        if( ft ) std::copy( f.begin() , f.end() , ft->begin() );
    }
    void operator()( const UV &x , UM &J , const double &t , UV &ft ) const { fill( x , J , t , &ft ); }
    void operator()( const UV &x , UM &J , const double &t ) const { fill( x , J , t , 0 ); }
};
template< class F > void with_system( Box &b , int pass , F f )
{
    Fn fn{ &b }; Jn jn{ &b }; std::pair< Fn , Jn > s( fn , jn );
    switch( pass )
    {
    case 0: f( s ); break;
    case 1: f( std::make_pair( std::ref( fn ) , std::ref( jn ) ) ); break;
    case 2: f( std::ref( s ) ); break;
    case 3: f( std::make_pair( boost::ref( fn ) , jn ) ); break;
    default: f( boost::ref( s ) ); break;
    }
}

double maxabs( const ref::M &m ) { double r = 0; for( const V &v : m ) r = std::max( r , ref::maxabs( v ) ); return r; }

// shift > 0: the diagonal of the iteration matrix ( shift - a_ii ) nearly vanishes, so elimination must exchange rows
Model draw_model( Ctx &c , size_t n , double shift )
{
    Model m; m.a.assign( n , V( n , 0.0 ) ); m.s.resize( n ); m.b.resize( n );
    int kind = (int)c.draw( 5 );
    static const double st[] = { 1 , 10 , 100 , 1e3 , 1e4 };
    double stiff = c.pick( st );
    for( size_t i = 0 ; i < n ; ++i )
    {
        for( size_t j = 0 ; j < n ; ++j ) m.a[i][j] = c.real( -1 , 1 );
        if( kind == 1 ) m.a[i][i] -= stiff;
        if( kind == 2 ) for( size_t j = 0 ; j < n ; ++j ) if( j != i ) m.a[i][j] *= 0.1;
        if( kind == 2 ) m.a[i][i] = -stiff * c.real( 0.01 , 1 );
        if( kind == 3 && n > 1 ) { m.a[i][i] = shift; m.a[i][( i + 1 ) % n] = ( c.chance( 500 ) ? 1 : -1 ) * c.real( 0.5 , 1 ) * std::fabs( shift ); c.cover( "pivoting" ); }
        m.s[i] = kind == 4 ? 0 : c.real( -1 , 1 ); m.b[i] = c.chance( 600 ) ? c.real( -2 , 2 ) : 0;
    }
    m.w = c.real( 0.1 , 4 ); m.phase = c.chance( 400 ) ? c.real( -2 , 2 ) : 0;
    return m;
}

// --------------------------------------------------------------------------------------------- rosenbrock4
template< class S > void rosenbrock_history( Ctx &c , bool resizes )
{
    std::unique_ptr< S > st( new S );
    Box b( c );
    size_t n = 1 + c.draw( 6 );
    int steps = 1 + (int)c.draw( 6 ); double t = c.chance( 300 ) ? 0 : c.real( -5 , 5 );
    V x; b.n = 0;
    for( int k = 0 ; k < steps ; ++k )
    {
        if( k && resizes && c.chance( 400 ) ) { n = 1 + c.draw( 6 ); c.fault( "size-change" ); }
        static const double mag[] = { 1 , 0.1 , 1e-2 , 1e-3 };
        double h = c.pick( mag ) * c.real( 0.05 , 1 ) * ( c.chance( 350 ) ? -1 : 1 );
        if( b.n != n || c.chance( 400 ) || !( ref::maxabs( x ) < 20 ) )
        {
            b.n = n; b.m = draw_model( c , n , 4 / h );
            x.resize( n ); for( double &v : x ) v = c.real( -2 , 2 );
        }
        auto f = [&]( const V &y , V &d , double s ) { b.m.f( y , d , s ); };
        auto j = [&]( const V &y , ref::M &J , double s , V &ft ) { b.m.jac( y , J , s , ft ); };
        ref::RosResult r = ref::rosenbrock( f , j , x , t , h );
        if( !r.ok || !( ref::maxabs( r.x ) < 1e6 ) || !( ref::maxabs( r.err ) < 1e6 ) ) throw sim::Skip();
        // rounding: sensitivity to perturbations of state and Jacobian
        double sens_x = 0 , sens_e = 0;
        for( int q = 0 ; q < 3 ; ++q )
        {
            V y = x; for( double &v : y ) v *= 1 + 1e-13 * c.real( -1 , 1 );
            double p = 1e-13 * c.real( -1 , 1 );
            auto j2 = [&]( const V &z , ref::M &J , double s , V &ft ) { b.m.jac( z , J , s , ft ); for( V &row : J ) for( double &v : row ) v *= 1 + p; };
            auto f2 = [&]( const V &z , V &d , double s ) { b.m.f( z , d , s ); for( double &v : d ) v *= 1 - p; };
            ref::RosResult r2 = ref::rosenbrock( f2 , j2 , y , t , h );
            if( !r2.ok ) throw sim::Skip();
            sens_x = std::max( sens_x , ref::maxdiff( r2.x , r.x ) ); sens_e = std::max( sens_e , ref::maxdiff( r2.err , r.err ) );
        }
        double kmax = 0; for( const V &kk : r.k ) kmax = std::max( kmax , ref::maxabs( kk ) );
        double tx = 1e-11 * ( 1 + ref::maxabs( r.x ) + kmax ) + 100 * ( sens_x + sens_e ) , te = tx;
        if( tx > 1e-5 * ( 1 + ref::maxabs( r.x ) ) ) throw sim::Skip();
        int kind = (int)c.draw( 4 ) , pass = (int)c.draw( 5 );
        if( c.chance( 120 ) )
        {   // disturb the stepper before the step: it must not matter
            UV y = uv( x ) , o( n );
            b.throw_at = b.calls + (long)c.draw( 7 );
            try { with_system( b , pass , [&]( auto s ) { st->do_step( s , y , t , o , h ); } ); } catch( sim::SimFault & ) { }
            b.throw_at = -1;
            if( ref::maxdiff( vu( y ) , x ) != 0 ) c.fail( "input-modified" , "rosenbrock4: an out-of-place step that threw changed its input" );
        }
        if( c.chance( 80 ) && !resizes ) { std::unique_ptr< S > cp( new S( *st ) ); st.swap( cp ); }
        UV y = uv( x ) , o( n ) , err( n ); bool has_err = kind == 1 || kind == 3;
        b.ts.clear(); b.calls = 0;
        {
            with_system( b , pass , [&]( auto s ) {
                switch( kind )
                {
                case 0: st->do_step( s , y , t , h ); o = y; break;
                case 1: st->do_step( s , y , t , h , err ); o = y; break;
                case 2: st->do_step( s , y , t , o , h ); break;
                default: st->do_step( s , y , t , o , h , err ); break;
                } } );
        }
        if( kind >= 2 && ref::maxdiff( vu( y ) , x ) != 0 ) c.fail( "input-modified" , "rosenbrock4: an out-of-place step changed its input" );
        double d = ref::maxdiff( vu( o ) , r.x );
        if( !( d <= tx ) ) c.fail( "rosenbrock-step" , "rosenbrock4 (form %d): size %zu t=%.17g dt=%.17g differs from the step of the method by %.3g (tolerance %.3g)" , kind , n , t , h , d , tx );
        if( has_err )
        {
            d = ref::maxdiff( vu( err ) , r.err );
            if( !( d <= te ) ) c.fail( "rosenbrock-error" , "rosenbrock4 (form %d): error estimate differs from that of the method by %.3g (tolerance %.3g)" , kind , d , te );
        }
        double tt = 1e-14 * ( std::fabs( t ) + std::fabs( h ) ) * 4;
        for( double s : b.ts ) if( s < std::min( t , t + h ) - tt || s > std::max( t , t + h ) + tt ) c.fail( "evaluation-time" , "rosenbrock4: evaluated at t=%.17g outside the step" , s );
        c.log( "size" , (double)n ); c.log( "form" , kind * 8.0 + pass ); c.log( "h" , h ); c.logvec( "x" , vu( o ) );
        if( h < 0 ) c.cover( "backward" );
        if( k ) c.nontrivial();
        x = vu( o ); t += h; c.elapse( std::fabs( h ) );
    }
}
SIM_SCENARIO( P19 , rosenbrock_steps , 3 )
{
    if( c.chance( 600 ) ) rosenbrock_history< ode::rosenbrock4< double , ode::default_rosenbrock_coefficients< double > , ode::always_resizer > >( c , true );
    else rosenbrock_history< ode::rosenbrock4< double > >( c , false );
}

// --------------------------------------------------------------------------------------------- implicit_euler
double norm2( const V &v ) { double r = 0; for( double q : v ) r += q * q; return std::sqrt( r ); }
template< class S > void implicit_history( Ctx &c , bool resizes )
{
    static const double epss[] = { 1e-6 , 1e-3 , 1e-9 , 1e-11 };
    bool dflt = c.chance( 300 ); double eps = dflt ? 1e-6 : c.pick( epss );
    std::unique_ptr< S > st( dflt ? new S : new S( eps ) );
    Box b( c ); b.n = 0;
    size_t n = 1 + c.draw( 6 );
    int steps = 1 + (int)c.draw( 6 ); double t = c.chance( 300 ) ? 0 : c.real( -5 , 5 );
    V x;
    for( int k = 0 ; k < steps ; ++k )
    {
        if( k && resizes && c.chance( 400 ) ) { n = 1 + c.draw( 6 ); c.fault( "size-change" ); }
        static const double mag[] = { 1 , 0.25 , 1. / 64 , 1. / 1024 };
        double h = c.pick( mag ) * ( c.chance( 300 ) ? 1 : c.real( 0.1 , 1 ) ) * ( c.chance( 350 ) ? -1 : 1 );
        bool fresh_model = b.n != n || c.chance( 400 ) || !( ref::maxabs( x ) < 20 );
        if( fresh_model )
        {
            b.n = n; b.m = draw_model( c , n , 1 / h );
            x.resize( n ); for( double &v : x ) v = c.real( -2 , 2 );
        }
        int pass = (int)c.draw( 5 );
        if( c.chance( 150 ) )
        {   // singular Newton matrix: row i of 1 - h J vanishes
            Model keep = b.m; double pw = std::ldexp( 1.0 , -(int)c.draw( 6 ) ) * ( h > 0 ? 1 : -1 );
            size_t i = c.draw( n );
            for( double &v : b.m.a[i] ) v = 0;
            b.m.a[i][i] = 1 / pw; b.m.s[i] = 0;
            UV y = uv( x ); bool thrown = false;
            try { with_system( b , pass , [&]( auto s ) { st->do_step( s , y , t , pw ); } ); } catch( ode::odeint_error & ) { thrown = true; }
            c.fault( "singular-matrix" );
            if( !thrown ) c.fail( "singular-matrix" , "implicit_euler: no error for a singular Newton matrix" );
            if( ref::maxdiff( vu( y ) , x ) != 0 ) c.fail( "singular-matrix" , "implicit_euler: the state was changed although no step could be made" );
            b.m = keep;
        }
        // the simplified Newton iteration of the method, to convergence
        ref::M J , A; V ft; b.m.jac( x , J , t + h , ft );
        A.assign( n , V( n ) );
        for( size_t i = 0 ; i < n ; ++i ) for( size_t j = 0 ; j < n ; ++j ) A[i][j] = ( i == j ? 1 : 0 ) - h * J[i][j];
        V z = x , fz , res( n ) , d; double prev = 0 , q = 0 , last = 0; bool ok = true;
        for( int it = 0 ; it < 100 ; ++it )
        {
            b.m.f( z , fz , t + h );
            for( size_t i = 0 ; i < n ; ++i ) res[i] = x[i] - z[i] + h * fz[i];
            if( !ref::solve( A , res , d ) ) { ok = false; break; }
            for( size_t i = 0 ; i < n ; ++i ) z[i] += d[i];
            last = norm2( d );
            if( it && last > 1e-12 && prev > 0 ) q = std::max( q , last / prev );
            if( !( last < 1e8 ) || q > 0.5 ) { ok = false; break; }
            if( last < 1e-14 ) break;
            prev = last;
        }
        // conditioning of the linear systems
        double cond = 0;
        for( size_t i = 0 ; ok && i < n ; ++i ) { V e( n ) , s; e[i] = 1; if( !ref::solve( A , e , s ) ) ok = false; cond = std::max( cond , ref::maxabs( s ) ); }
        cond *= (double)n * maxabs( A );
        double floor = 1e-15 * ( 1 + ref::maxabs( z ) ) * ( 1 + cond ) * 20;
        if( !ok || !( cond < 1e5 ) || floor > 0.05 * eps || !( ref::maxabs( z ) < 1e4 ) ) throw sim::Skip();
        if( c.chance( 120 ) )
        {
            UV y = uv( x ); b.throw_at = b.calls + (long)c.draw( 4 ); bool thrown = false;
            try { with_system( b , pass , [&]( auto s ) { st->do_step( s , y , t , h ); } ); } catch( sim::SimFault & ) { thrown = true; }
            b.throw_at = -1;
            if( thrown && ref::maxdiff( vu( y ) , x ) != 0 ) c.fail( "state-after-exception" , "implicit_euler: a step that threw changed the state" );
        }
        if( c.chance( 80 ) ) { std::unique_ptr< S > cp( new S( *st ) ); st.swap( cp ); }
        UV y = uv( x ); b.ts.clear(); b.calls = 0;
        with_system( b , pass , [&]( auto s ) { st->do_step( s , y , t , h ); } );
        V o = vu( y ); double e = 0; { V dd( n ); for( size_t i = 0 ; i < n ; ++i ) dd[i] = o[i] - z[i]; e = norm2( dd ); }
        double tol = 1.1 * eps + floor;                 // the last correction is below eps and the contraction at most 1/2
        if( !( e <= tol ) ) c.fail( "implicit-euler-step" , "implicit_euler: size %zu t=%.17g dt=%.17g: |x - solution of x=x0+dt f(x,t+dt)| = %.3g, epsilon %.3g" , n , t , h , e , eps );
        for( double s : b.ts ) if( std::fabs( s - ( t + h ) ) > 1e-14 * ( std::fabs( t ) + std::fabs( h ) ) * 4 ) c.fail( "evaluation-time" , "implicit_euler: evaluated at t=%.17g instead of t+dt=%.17g" , s , t + h );
        c.log( "size" , (double)n ); c.log( "calls" , (double)b.calls ); c.log( "h" , h ); c.logvec( "x" , o );
        if( h < 0 ) c.cover( "backward" );
        if( b.calls > 2 ) c.cover( "newton-iterated" );
        if( k ) c.nontrivial();
        x = o; t += h; c.elapse( std::fabs( h ) );
    }
}
SIM_SCENARIO( P19 , implicit_euler_steps , 3 )
{
    if( c.chance( 600 ) ) implicit_history< ode::implicit_euler< double , ode::always_resizer > >( c , true );
    else implicit_history< ode::implicit_euler< double > >( c , false );
}

// --------------------------------------------------------------------------------------------- stiff integrations
// x_i' = l_i ( x_i - g_i(t) ) + g_i'(t) with g_i = cos( w t + i ) and l_i down to -1e6, rotated by a fixed orthogonal mixing of neighbours
struct StiffSys
{
    Box *b; V l; double w , co , si; bool lin;
    V exact( const V &c0 , double t ) const { V u; for( size_t i = 0 ; i < l.size() ; ++i ) u.push_back( std::cos( w * t + i ) + c0[i] * std::exp( l[i] * t ) ); return rot( u , si ); }
    V rot( const V &u , double s ) const { V r = u; for( size_t i = 0 ; i + 1 < u.size() ; i += 2 ) { r[i] = co * u[i] - s * u[i+1]; r[i+1] = s * u[i] + co * u[i+1]; } return r; }
};
struct SFn { const StiffSys *s; void operator()( const UV &x , UV &d , double t ) const
    {
        s->b->enter( x.size() , d.size() );
        V u = s->rot( vu( x ) , -s->si ) , v( u.size() );
        for( size_t i = 0 ; i < u.size() ; ++i ) v[i] = s->l[i] * ( u[i] - std::cos( s->w * t + i ) ) - s->w * std::sin( s->w * t + i );
        v = s->rot( v , s->si ); std::copy( v.begin() , v.end() , d.begin() );
    } };
struct SJn { const StiffSys *s; void operator()( const UV &x , UM &J , const double &t , UV &ft ) const
    {
        size_t n = x.size(); s->b->enter( n , J.size1() );
        V g( n );
        for( size_t j = 0 ; j < n ; ++j )
        {
            V e( n ); e[j] = 1; V u = s->rot( e , -s->si ); for( size_t i = 0 ; i < n ; ++i ) u[i] *= s->l[i]; u = s->rot( u , s->si );
            for( size_t i = 0 ; i < n ; ++i ) J( i , j ) = u[i];
            g[j] = s->l[j] * s->w * std::sin( s->w * t + j ) - s->w * s->w * std::cos( s->w * t + j );
        }
        g = s->rot( g , s->si ); std::copy( g.begin() , g.end() , ft.begin() );
    } };
SIM_SCENARIO( P19 , stiff_integration , 1 )
{
    Box b( c ); b.n = 1 + c.draw( 5 );
    StiffSys s; s.b = &b; s.w = c.real( 0.3 , 3 ); double phi = c.real( 0 , 3 ); s.co = std::cos( phi ); s.si = std::sin( phi );
    if( b.n & 1 ) { }
    static const double sc[] = { 1 , 100 , 1e4 , 1e6 };
    V c0;
    for( size_t i = 0 ; i < b.n ; ++i ) { s.l.push_back( -c.pick( sc ) * c.real( 0.1 , 1 ) ); c0.push_back( c.real( -1 , 1 ) ); }
    static const double tols[] = { 1e-3 , 1e-5 , 1e-7 };
    double eps = c.pick( tols ) , T = c.real( 0.5 , 4 ) , dt = c.real( 1e-4 , 0.3 );
    UV x = uv( s.exact( c0 , 0 ) );
    int kind = (int)c.draw( 5 );
    V times; if( kind == 3 || kind == 4 ) { times.push_back( 0 ); int m = 2 + (int)c.draw( 6 ); for( int i = 1 ; i < m ; ++i ) times.push_back( T * i / ( m - 1. ) * c.real( 0.98 , 1 ) ); T = times.back(); }
    double worst = 0; double wt = 0; long nobs = 0;
    auto obs = [&]( const UV &y , double t ) { double d = ref::maxdiff( vu( y ) , s.exact( c0 , t ) ); if( !( d <= worst ) ) { worst = d; wt = t; } ++nobs; };
    auto sys = std::make_pair( SFn{ &s } , SJn{ &s } );
    typedef ode::rosenbrock4< double > R;
    size_t steps = 0;
    switch( kind )
    {
    case 0: steps = ode::integrate_adaptive( ode::make_controlled( eps , eps , R() ) , sys , x , 0.0 , T , dt , obs ); break;
    case 1: steps = ode::integrate_adaptive( ode::make_dense_output( eps , eps , R() ) , sys , x , 0.0 , T , dt , obs ); break;
    case 2: steps = ode::integrate_const( ode::make_dense_output( eps , eps , R() ) , sys , x , 0.0 , T , T / ( 1 + c.draw( 20 ) ) * 0.999 , obs ); break;
    case 3: steps = ode::integrate_times( ode::make_controlled( eps , eps , R() ) , sys , x , times , dt , obs ); break;
    default: steps = ode::integrate_times( ode::make_dense_output( eps , eps , R() ) , sys , x , times , dt , obs ); break;
    }
    // between the steps the published interpolant loses accuracy for stiff components (order reduction): there only the end of the integration counts
    bool soft = ref::maxabs( s.l ) <= 100;
    if( ( kind == 2 || kind == 4 ) && !soft ) worst = kind == 4 ? ref::maxdiff( vu( x ) , s.exact( c0 , T ) ) : 0;
    if( nobs < 2 ) c.fail( "stiff-observations" , "stiff integration (kind %d): %ld observations" , kind , nobs );
    double limit = kind == 2 || kind == 4 ? 200 * std::pow( eps , 0.75 ) : 100 * eps;
    if( !( worst <= limit ) ) c.fail( "stiff-error" , "stiff integration (kind %d): error %.3g at t=%.17g with tolerance %.3g" , kind , worst , wt , eps );
    double most = 400 * std::pow( 1e-3 / eps , 0.28 ) + ( kind == 3 ? 40.0 * times.size() : 0 );
    if( (double)steps > most ) c.fail( "stiff-steps" , "stiff integration (kind %d): %zu steps over %.3g time units with tolerance %.3g" , kind , steps , T , eps );
    c.log( "kind" , (double)kind ); c.log( "steps" , (double)steps ); c.log( "worst" , worst ); c.elapse( T ); c.nontrivial();
    static const char *nm[] = { "controlled-adaptive" , "dense-adaptive" , "dense-const" , "controlled-times" , "dense-times" }; c.cover( nm[kind] );
}
} // namespace
