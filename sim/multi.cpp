// P11: multistep methods.  Oracle: Adams formulas built here from the integrals of the interpolating
// polynomials through the true history of derivatives (equal and unequal step sizes).
#include "mach.hpp"
using namespace mach;
using namespace boost::numeric::odeint;

namespace {
typedef range_algebra RA; typedef default_operations DO;
struct Io { Env *e; V x , out; double t , dt; int form , how; bool acc; };
struct Guarded      // a range in the middle of a larger container
{
    V b;
    explicit Guarded( const V &x ) : b( x.size() + 4 , 77.5 ) { std::copy( x.begin() , x.end() , b.begin() + 2 ); }
    boost::iterator_range< V::iterator > range() { return boost::make_iterator_range( b.begin() + 2 , b.end() - 2 ); }
    V get( Io &io )
    {
        for( size_t i = 0 ; i < 2 ; ++i ) if( b[i] != 77.5 || b[b.size() - 1 - i] != 77.5 ) io.e->c.fail( "outside-range" , "a step wrote outside the range it was given" );
        return V( b.begin() + 2 , b.end() - 2 );
    }
};
enum Kind { AB , ABM , ADA , CON };
struct Item
{
    const char *name; Kind kind; int n; bool resizes;
    std::function< std::shared_ptr< void > ( const double * ) > make;        // eps, max_dt
    std::function< void ( void * , Io & ) > step , init;
    std::function< void ( void * ) > reset;
};
std::vector< Item > &items() { static std::vector< Item > v; return v; }

template< class S > void reg( const char *name , Kind k , int n , bool resizes )
{
    Item i; i.name = name; i.kind = k; i.n = n; i.resizes = resizes;
    i.make = []( const double * ) { return std::shared_ptr< void >( new S ); };
    i.step = []( void *p , Io &io )
    {
        S &s = *(S *)p; Sys f{ io.e };
        switch( io.form )
        {
        case 0: s.do_step( f , io.x , io.t , io.dt ); break;
        case 1: s.do_step( std::ref( f ) , io.x , io.t , io.dt ); break;
        case 2: { io.out.assign( io.x.size() , -9.0 ); V keep = io.x; s.do_step( f , io.x , io.t , io.out , io.dt ); if( io.x != keep ) io.e->c.fail( "input-modified" , "an out-of-place step changed its input state" ); io.x = io.out; break; }
        case 3: { io.out.assign( io.x.size() , -9.0 ); s.do_step( boost::ref( f ) , (const V &)io.x , io.t , io.out , io.dt ); io.x = io.out; break; }
        case 4: { Guarded g( io.x ); s.do_step( f , g.range() , io.t , io.dt ); io.x = g.get( io ); break; }
        default: { Guarded g( V( io.x.size() , -9.0 ) ); s.do_step( f , io.x , io.t , g.range() , io.dt ); io.x = g.get( io ); break; }
        }
        io.t += io.dt; io.acc = true;
    };
    i.init = []( void *p , Io &io )
    {
        S &s = *(S *)p; Sys f{ io.e };
        switch( io.how )
        {
        case 0: s.initialize( f , io.x , io.t , io.dt ); break;
        case 1: s.initialize( runge_kutta4< V >() , f , io.x , io.t , io.dt ); break;
        default: { runge_kutta_fehlberg78< V > r; s.initialize( boost::ref( r ) , std::ref( f ) , io.x , io.t , io.dt ); break; }
        }
    };
    i.reset = []( void *p ) { ( (S *)p )->reset(); };
    items().push_back( i );
}
template< class S > void reg_ada( const char *name , int n , bool resizes )
{
    Item i; i.name = name; i.kind = ADA; i.n = n; i.resizes = resizes;
    i.make = []( const double * ) { return std::shared_ptr< void >( new S ); };
    i.step = []( void *p , Io &io )
    {
        S &s = *(S *)p; Sys f{ io.e }; V er( io.x.size() );
        switch( io.form )
        {
        case 0: s.do_step( f , io.x , io.t , io.dt ); break;
        case 1: s.do_step( std::ref( f ) , io.x , io.t , io.dt , er ); break;
        case 2: { io.out.assign( io.x.size() , -9.0 ); V keep = io.x; s.do_step( f , io.x , io.t , io.out , io.dt ); if( io.x != keep ) io.e->c.fail( "input-modified" , "an out-of-place step changed its input state" ); io.x = io.out; break; }
        default: { io.out.assign( io.x.size() , -9.0 ); s.do_step( f , (const V &)io.x , io.t , io.out , io.dt , er ); io.x = io.out; break; }
        }
        io.t += io.dt; io.acc = true;
    };
    i.init = []( void *p , Io &io )
    {
        S &s = *(S *)p; Sys f{ io.e };
        if( io.how == 0 ) s.initialize( f , io.x , io.t , io.dt );
        else if( io.how == 1 ) s.initialize( runge_kutta4< V >() , f , io.x , io.t , io.dt );
        else s.initialize( runge_kutta_fehlberg78< V >() , std::ref( f ) , io.x , io.t , io.dt );
    };
    i.reset = []( void *p ) { ( (S *)p )->reset(); };
    items().push_back( i );
}
template< class S > void reg_con( const char *name , int n , bool resizes )
{
    Item i; i.name = name; i.kind = CON; i.n = n; i.resizes = resizes;
    i.make = []( const double *p ) { return std::shared_ptr< void >( new S( typename S::step_adjuster_type( p[0] , p[0] , p[1] ) ) ); };
    i.step = []( void *p , Io &io )
    {
        S &s = *(S *)p; Sys f{ io.e };
        if( io.form < 2 ) io.acc = ( io.form ? s.try_step( std::ref( f ) , io.x , io.t , io.dt ) : s.try_step( f , io.x , io.t , io.dt ) ) == success;
        else { io.out.assign( io.x.size() , -9.0 ); io.acc = s.try_step( f , (const V &)io.x , io.t , io.out , io.dt ) == success; if( io.acc ) io.x = io.out; }
    };
    i.init = []( void *p , Io &io )
    {
        S &s = *(S *)p; Sys f{ io.e };
        if( io.how == 0 ) s.initialize( f , io.x , io.t , io.dt );
        else if( io.how == 1 ) s.initialize( runge_kutta_fehlberg78< V >() , f , io.x , io.t , io.dt );
        else s.initialize_controlled( make_controlled( 1e-10 , 1e-10 , runge_kutta_dopri5< V >() ) , f , io.x , io.t , io.dt );
    };
    i.reset = []( void *p ) { ( (S *)p )->reset(); };
    items().push_back( i );
}
template< size_t N , class R > struct T
{
    typedef adams_bashforth< N , V , double , V , double , RA , DO , R > ab;
    typedef adams_bashforth_moulton< N , V , double , V , double , RA , DO , R > abm;
    typedef adaptive_adams_bashforth_moulton< N , V , double , V , double , RA , DO , R > ada;
    typedef controlled_adams_bashforth_moulton< ada , boost::numeric::odeint::detail::pid_step_adjuster< V , double , V , double , RA , DO , boost::numeric::odeint::detail::H211PI > , default_order_adjuster< N , V , double , RA > , R > con;
};
typedef initially_resizer I; typedef always_resizer A;
struct InitItems
{
    InitItems()
    {
        reg< T< 1 , I >::ab >( "adams_bashforth<1>" , AB , 1 , false );
        reg< T< 2 , A >::ab >( "adams_bashforth<2>/always_resizer" , AB , 2 , true );
        reg< T< 3 , I >::ab >( "adams_bashforth<3>" , AB , 3 , false );
        reg< T< 4 , A >::ab >( "adams_bashforth<4>/always_resizer" , AB , 4 , true );
        reg< T< 5 , I >::ab >( "adams_bashforth<5>" , AB , 5 , false );
        reg< T< 6 , A >::ab >( "adams_bashforth<6>/always_resizer" , AB , 6 , true );
        reg< T< 7 , I >::ab >( "adams_bashforth<7>" , AB , 7 , false );
        reg< T< 8 , A >::ab >( "adams_bashforth<8>/always_resizer" , AB , 8 , true );
        reg< T< 1 , A >::abm >( "adams_bashforth_moulton<1>/always_resizer" , ABM , 1 , true );
        reg< T< 2 , I >::abm >( "adams_bashforth_moulton<2>" , ABM , 2 , false );
        reg< T< 3 , A >::abm >( "adams_bashforth_moulton<3>/always_resizer" , ABM , 3 , true );
        reg< T< 4 , I >::abm >( "adams_bashforth_moulton<4>" , ABM , 4 , false );
        reg< T< 5 , A >::abm >( "adams_bashforth_moulton<5>/always_resizer" , ABM , 5 , true );
        reg< T< 6 , I >::abm >( "adams_bashforth_moulton<6>" , ABM , 6 , false );
        reg< T< 7 , A >::abm >( "adams_bashforth_moulton<7>/always_resizer" , ABM , 7 , true );
        reg< T< 8 , I >::abm >( "adams_bashforth_moulton<8>" , ABM , 8 , false );
        reg_ada< T< 2 , I >::ada >( "adaptive_adams_bashforth_moulton<2>" , 2 , false );
        reg_ada< T< 3 , A >::ada >( "adaptive_adams_bashforth_moulton<3>/always_resizer" , 3 , true );
        reg_ada< T< 5 , I >::ada >( "adaptive_adams_bashforth_moulton<5>" , 5 , false );
        reg_ada< T< 8 , I >::ada >( "adaptive_adams_bashforth_moulton<8>" , 8 , false );
        reg_con< T< 3 , I >::con >( "controlled_adams_bashforth_moulton<3>" , 3 , false );
        reg_con< T< 4 , A >::con >( "controlled_adams_bashforth_moulton<4>/always_resizer" , 4 , true );
        reg_con< T< 7 , I >::con >( "controlled_adams_bashforth_moulton<7>" , 7 , false );
    }
} init_items;

typedef std::vector< std::pair< double , V > > Hist;         // newest first: (time, derivative)
// integral over [t,t+dt] of the polynomial through the given points
double condition;        // sum of |weight * derivative| of the last formula: its rounding error
V adams( const V &x , double t , double dt , const Hist &h , size_t k )
{
    condition = 0;
    V node , y = x; for( size_t i = 0 ; i < k ; ++i ) node.push_back( ( h[i].first - t ) / dt );
    V w = ref::lagrange_weights( node , 0 , 1 );
    for( size_t i = 0 ; i < k ; ++i ) ref::axpy( y , dt * w[i] , h[i].second ) , condition += std::fabs( dt * w[i] ) * ref::maxabs( h[i].second );
    return y;
}
// predict with k points, evaluate, correct with kc points including the predicted one
V pece( const ref::F &f , const V &x , double t , double dt , const Hist &h , size_t k , size_t kc )
{
    V p = adams( x , t , dt , h , k ) , d( x.size() ); double cp = condition;
    f( p , d , t + dt );
    Hist q = h; q.insert( q.begin() , std::make_pair( t + dt , d ) );
    V y = adams( x , t , dt , q , kc ); condition += 10 * cp * std::fabs( dt );
    return y;
}
int init_order( int n ) { int o = n % 2 ? n + 1 : n; return std::max( 4 , o ); }
V extrap( const ref::F &f , const V &x , double t , double dt , int order )
{
    std::vector< int > ns; for( int i = 1 ; i <= order / 2 ; ++i ) ns.push_back( 2 * i );
    return ref::extrapolate( f , x , t , dt , ns ).x;
}

// the documented initialising steppers
V first_step( const Item &it , const ref::F &f , const V &x , double t , double dt )
{ return it.kind == ABM ? ref::rk_step( ref::t_rk4() , f , x , t , dt ).x : extrap( f , x , t , dt , init_order( it.n ) ); }

SIM_SCENARIO( P11 , adams_history , 1 )
{
    const Item &it = items()[ c.draw( items().size() ) ];
    c.note( "stepper %s" , it.name ); c.cover( it.name );
    Env e( c ); e.p.draw( c ); size_t n = 1 + c.draw( 5 ); e.n = n;
    double par[2] = { 1e-5 , 1.0 }; static const double tols[] = { 1e-6 , 1e-4 , 1e-8 , 1e-3 }; par[0] = c.pick( tols ); if( c.chance( 300 ) ) par[1] = c.real( 0.05 , 0.3 );
    std::shared_ptr< void > s = it.make( par );
    double dir = c.chance( 400 ) ? -1 : 1 , h0 = dir * ( c.chance( 300 ) ? c.real( 0.1 , 0.25 ) : c.real( 0.001 , 0.1 ) );
    V x( n ); double t = 0; condition = 0; Hist h; bool fresh = true , initialized = false; int multistep = 0 , total = 4 + (int)c.draw( 24 );
    ref::F f = ref_rhs( e.p );
    for( double &v : x ) v = c.real( -1.5 , 1.5 ); t = c.real( -5 , 5 );
    double dt = h0; int order = 1;
    for( int i = 0 ; i < total ; ++i )
    {
        if( i && c.chance( 60 ) )
        {   // another trajectory: needs reset()
            ( it.reset )( s.get() ); c.fault( "reset" );
            if( it.resizes && c.chance( 500 ) ) { n = 1 + c.draw( 8 ); x.resize( n ); e.n = n; c.fault( "size-change" ); }
            for( double &v : x ) v = c.real( -1.5 , 1.5 ); t = c.real( -5 , 5 );
            if( c.chance( 300 ) ) { e.p.draw( c ); c.fault( "system-changed" ); }
            dir = c.chance( 400 ) ? -1 : 1; h0 = dir * c.real( 0.001 , 0.15 ); dt = h0; h.clear(); fresh = true; initialized = false; order = 1;
        }
        Io io; io.e = &e; io.x = x; io.t = t; io.dt = dt; io.acc = false; io.form = (int)c.draw( it.kind == CON ? 3 : it.kind == ADA ? 4 : 6 ); io.how = (int)c.draw( 3 );
        if( ( fresh && c.chance( 300 ) ) || c.chance( 25 ) )
        {   // explicit initialisation; at any point it starts a new history
            if( !fresh && it.kind != AB && it.kind != ABM ) { }
            Hist nh; V y = x; double tt = t , q = dt; int m = it.n;
            c.cover( "initialize" ); c.log( "initialize" , t , dt , io.how );
            it.init( s.get() , io );
            if( it.kind == AB || it.kind == ABM )
                for( int k = 0 ; k + 1 < m ; ++k )
                {
                    V d( n ); f( y , d , tt ); nh.insert( nh.begin() , std::make_pair( tt , d ) );
                    y = io.how == 0 ? first_step( it , f , y , tt , q ) : ref::rk_step( io.how == 1 ? ref::t_rk4() : ref::t_f78() , f , y , tt , q ).x; tt += q;
                }
            else if( it.kind == CON && io.how == 2 )
            {   // steps of a controlled stepper: check the end, then take the history from a walk of the same stepper
                auto cs = make_controlled( 1e-10 , 1e-10 , runge_kutta_dopri5< V >() );
                for( int k = 0 ; k < m ; ++k ) { Env e2( c ); e2.p = e.p; e2.n = n; Sys g{ &e2 }; while( cs.try_step( g , y , tt , q ) != success ) { } V d( n ); f( y , d , tt ); nh.insert( nh.begin() , std::make_pair( tt , d ) ); }
                order = m; dt = io.dt;
            }
            else
            {
                q = dt / m; V d( n ); f( y , d , tt ); nh.insert( nh.begin() , std::make_pair( tt , d ) );
                for( int k = 0 ; k < m ; ++k )
                {
                    y = io.how == 0 ? pece( f , y , tt , q , nh , k + 1 , k + 2 ) : ref::rk_step( it.kind == CON || io.how == 2 ? ref::t_f78() : ref::t_rk4() , f , y , tt , q ).x; tt += q;
                    f( y , d , tt ); nh.insert( nh.begin() , std::make_pair( tt , d ) );
                }
                order = m; dt = h0 = q;
            }
            double sc = 1 + ref::maxabs( y );
            if( std::fabs( io.t - tt ) > 1e-12 * ( 1 + std::fabs( tt ) ) ) c.fail( "initialize-time" , "%s: initialize ended at t=%.17g, expected %.17g" , it.name , io.t , tt );
            if( !( ref::maxdiff( io.x , y ) <= 1e-10 * sc ) ) c.fail( "initialize-state" , "%s: initialize (form %d) from t=%.17g with dt=%g ended in a state that differs by %g" , it.name , io.how , t , dt , ref::maxdiff( io.x , y ) );
            x = io.x; t = io.t; h = nh; fresh = false; initialized = true; multistep += m > 1;
            if( it.kind == AB || it.kind == ABM ) dt = q;
            continue;
        }
        if( it.kind == ADA && c.chance( 500 ) ) dt = h0 * c.real( 0.3 , 1.5 );
        io.dt = dt;
        V d( n ); f( x , d , t );
        V want; bool exact = true;
        if( it.kind == AB || it.kind == ABM )
        {
            h.insert( h.begin() , std::make_pair( t , d ) ); if( h.size() > (size_t)it.n ) h.pop_back();
            if( h.size() < (size_t)it.n ) want = first_step( it , f , x , t , dt );
            else { want = it.kind == AB ? adams( x , t , dt , h , it.n ) : pece( f , x , t , dt , h , it.n , it.n ); ++multistep; }
        }
        else
        {
            if( h.empty() ) h.insert( h.begin() , std::make_pair( t , d ) );
            if( it.kind == ADA ) { want = pece( f , x , t , dt , h , order , order + 1 ); if( order > 1 ) ++multistep; }
            else exact = false;
        }
        it.step( s.get() , io );
        c.log( io.acc ? "step" : "rejected" , io.t , io.dt , io.form ); c.logvec( "x" , io.x );
        double sc = 1 + ref::maxabs( x ) + std::fabs( dt ) * ref::maxabs( d ) , tol = 1e-11 * sc + 1e-12 * condition;
        if( exact && !( ref::maxdiff( io.x , want ) <= tol ) )
            c.fail( "adams-step" , "%s: step %d (form %d, dt=%g) differs from the Adams formula by %g" , it.name , i , io.form , dt , ref::maxdiff( io.x , want ) );
        if( it.kind == CON )
        {
            if( !io.acc ) { if( io.x != x || io.t != t ) c.fail( "rejected-step-changed-state" , "%s: a rejected step changed state or time" , it.name ); c.fault( "step-rejected" ); dt = io.dt; continue; }
            double best = HUGE_VAL; size_t bk = 0;
            for( size_t k = 1 ; k <= std::min< size_t >( it.n , h.size() ) ; ++k ) { double q = ref::maxdiff( io.x , pece( f , x , t , dt , h , k , k + 1 ) ) / ( tol + 1e-12 * condition ); if( q < best ) { best = q; bk = k; } }
            if( !( best <= 1 ) ) c.fail( "adams-step" , "%s: the accepted step from t=%.17g with dt=%g is no Adams step of any order for its history (closest: order %zu, %g times the rounding error)" , it.name , t , dt , bk , best );
            if( bk > 1 ) ++multistep;
        }
        double tn = t + ( it.kind == CON ? dt : io.dt );
        if( std::fabs( io.t - tn ) > 1e-13 * ( 1 + std::fabs( tn ) ) ) c.fail( "adams-time" , "%s: the step ended at t=%.17g" , it.name , io.t );
        if( it.kind == ADA || it.kind == CON )
        {
            V dn( n ); f( io.x , dn , io.t ); h.insert( h.begin() , std::make_pair( io.t , dn ) ); if( h.size() > (size_t)it.n + 2 ) h.pop_back();
            if( order < it.n ) ++order;
        }
        x = io.x; t = io.t; if( it.kind == CON ) dt = io.dt; fresh = false; c.elapse( dt );
        if( ref::maxabs( x ) > 50 ) break;
    }
    (void)initialized;
    if( multistep > 1 ) c.nontrivial();
}
}
