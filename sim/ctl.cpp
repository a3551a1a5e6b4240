// P07: one controlled step at a time.  Oracle: an independent implementation of the underlying
// method, of the weighted error norm and of the documented step size formulas.
#include "mach.hpp"
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
using namespace mach;
using namespace boost::numeric::odeint;

namespace {
typedef range_algebra RA; typedef default_operations DO;
typedef initially_resizer IR; typedef always_resizer AR;
static const double GUARD = 123456.75;

struct Par { double ea , er , ax , ad , mx; };
struct Io { Env *e; V x , dxdt , out; double t , dt; int form , pass; bool acc , outofplace; };

// simulated error checker and step adjuster: the schedule decides
struct Sched { double err = 0 , factor = 1; bool limit_ok = true; double limit = 0; int checks , dec , inc , lim; double adj_dt , adj_err , chk_dt; int adj_order; V x , dxdt , xerr; };
struct SimChecker
{
    Sched *s;
    explicit SimChecker( Sched *p = 0 ) : s( p ) { }
    template< class A , class X , class D , class Er , class T > double error( A & , const X &x , const D &d , Er &e , T dt ) const
    {
        sim::AllocPause ap; ++s->checks; s->x.assign( boost::begin( x ) , boost::end( x ) ); s->dxdt.assign( boost::begin( d ) , boost::end( d ) ); s->xerr.assign( boost::begin( e ) , boost::end( e ) ); s->chk_dt = dt;
        return s->err;
    }
};
struct SimAdjuster
{
    Sched *s;
    explicit SimAdjuster( Sched *p = 0 ) : s( p ) { }
    double decrease_step( double dt , double err , int o ) { ++s->dec; s->adj_dt = dt; s->adj_err = err; s->adj_order = o; return dt * s->factor; }
    double increase_step( double dt , double err , int o ) { ++s->inc; s->adj_dt = dt; s->adj_err = err; s->adj_order = o; return dt * s->factor; }
    bool check_step_size_limit( double ) { ++s->lim; return s->limit_ok; }
    double get_max_dt() { return s->limit; }
};

struct Made { std::shared_ptr< void > s; std::shared_ptr< Sched > sched; };
enum Kind { RK , ROS , BS , ABM };
struct Item
{
    const char *name; Kind kind; bool fsal , resizes , simd; int so , eo; ref::Tableau T; std::vector< int > forms;
    std::function< Made ( const Par & ) > make;
    std::function< void ( void * , Io & ) > go;
    std::function< void ( void * , Ctx & , Env & , const V & , double , int ) > reset;      // last: how (0 reset, 1/2 initialize)
};
std::vector< Item > &items() { static std::vector< Item > v; return v; }

template< class F > void with_sys( Io &io , F f )
{
    Sys s{ io.e };
    switch( io.pass ) { case 0: f( s ); break; case 1: f( std::ref( s ) ); break; default: f( boost::ref( s ) ); break; }
}
template< class S > void go0( S &s , Io &io ) { with_sys( io , [&]( auto f ) { io.acc = s.try_step( f , io.x , io.t , io.dt ) == success; } ); }
template< class S > void go1( S &s , Io &io )
{
    V g( io.x.size() + 4 , GUARD ); std::copy( io.x.begin() , io.x.end() , g.begin() + 2 );
    with_sys( io , [&]( auto f ) { io.acc = s.try_step( f , boost::make_iterator_range( g.begin() + 2 , g.end() - 2 ) , io.t , io.dt ) == success; } );
    for( int i = 0 ; i < 2 ; ++i ) if( g[i] != GUARD || g[g.size() - 1 - i] != GUARD ) io.e->c.fail( "outside-range" , "try_step wrote outside the range it was given" );
    std::copy( g.begin() + 2 , g.end() - 2 , io.x.begin() );
}
struct GoRk
{
    template< class S > static void go( S &s , Io &io )
    {
        switch( io.form )
        {
        case 0: go0( s , io ); break;
        case 1: go1( s , io ); break;
        case 2: with_sys( io , [&]( auto f ) { io.acc = s.try_step( f , io.x , io.dxdt , io.t , io.dt ) == success; } ); break;
        case 3: with_sys( io , [&]( auto f ) { io.acc = s.try_step( f , io.x , io.t , io.out , io.dt ) == success; } ); io.outofplace = true; break;
        default: with_sys( io , [&]( auto f ) { io.acc = s.try_step( f , io.x , io.dxdt , io.t , io.out , io.dt ) == success; } ); io.outofplace = true; break;
        }
    }
    template< class S > static void reset( S & , Ctx & , Env & , const V & , double , int ) { }
};
struct GoBs : GoRk { template< class S > static void reset( S &s , Ctx & , Env & , const V & , double , int ) { s.reset(); } };
struct GoFsal
{
    template< class S > static void go( S &s , Io &io )
    {
        switch( io.form )
        {
        case 0: go0( s , io ); break;
        case 1: go1( s , io ); break;
        case 2: with_sys( io , [&]( auto f ) { io.acc = s.try_step( f , io.x , io.dxdt , io.t , io.dt ) == success; } ); break;
        default:
            V d( io.x.size() , -7 ) , din = io.dxdt;
            with_sys( io , [&]( auto f ) { io.acc = s.try_step( f , io.x , din , io.t , io.out , d , io.dt ) == success; } ); io.outofplace = true;
            if( din != io.dxdt ) io.e->c.fail( "input-modified" , "try_step changed the derivative passed in" );
            if( io.acc ) io.dxdt = d;
        }
    }
    template< class S > static void reset( S &s , Ctx &c , Env &e , const V &x , double t , int how )
    {
        if( how == 0 ) { s.reset(); if( s.is_initialized() ) c.fail( "is-initialized" , "is_initialized() after reset()" ); return; }
        s.adjust_size( x );
        if( how == 1 ) s.initialize( Sys{ &e } , x , t );
        else { V d( x.size() ); ref_rhs( e.p )( x , d , t ); s.initialize( d ); }
        if( !s.is_initialized() ) c.fail( "is-initialized" , "not is_initialized() after initialize()" );
    }
};
struct GoTwo
{
    template< class S > static void go( S &s , Io &io )
    {
        Sys f{ io.e };      // (this stepper does not take boost::reference_wrapper)
        if( io.form == 0 ) io.acc = ( io.pass ? s.try_step( std::ref( f ) , io.x , io.t , io.dt ) : s.try_step( f , io.x , io.t , io.dt ) ) == success;
        else { io.acc = s.try_step( f , io.x , io.t , io.out , io.dt ) == success; io.outofplace = true; }
    }
    template< class S > static void reset( S &s , Ctx & , Env & , const V & , double , int ) { s.reset(); }
};
template< class S , class G > Item item( const char *name , Kind k , bool fsal , bool resizes , int so , int eo , std::vector< int > forms )
{
    Item i; i.name = name; i.kind = k; i.fsal = fsal; i.resizes = resizes; i.simd = false; i.so = so; i.eo = eo; i.forms = forms;
    i.go = []( void *s , Io &io ) { G::go( *static_cast< S * >( s ) , io ); };
    i.reset = []( void *s , Ctx &c , Env &e , const V &x , double t , int how ) { G::reset( *static_cast< S * >( s ) , c , e , x , t , how ); };
    return i;
}
template< class St , class R , class G > void add_rk( const char *name , bool resizes , int so , int eo , ref::Tableau T )
{
    typedef default_error_checker< double , RA , DO > EC; typedef default_step_adjuster< double , double > SA;
    typedef controlled_runge_kutta< St , EC , SA , R > S;
    bool fsal = std::is_same< G , GoFsal >::value;
    Item i = item< S , G >( name , RK , fsal , resizes , so , eo , fsal ? std::vector< int >{ 0 , 1 , 2 , 4 } : std::vector< int >{ 0 , 1 , 2 , 3 , 4 } ); i.T = T;
    i.make = []( const Par &p ) { Made m; m.s = std::make_shared< S >( EC( p.ea , p.er , p.ax , p.ad ) , SA( p.mx ) ); return m; };
    items().push_back( i );
}
template< class St , class R , class G > void add_sim( const char *name , bool resizes , int so , int eo , ref::Tableau T )
{
    typedef controlled_runge_kutta< St , SimChecker , SimAdjuster , R > S;
    bool fsal = std::is_same< G , GoFsal >::value;
    Item i = item< S , G >( name , RK , fsal , resizes , so , eo , fsal ? std::vector< int >{ 0 , 1 , 2 , 4 } : std::vector< int >{ 0 , 1 , 2 , 3 , 4 } ); i.T = T; i.simd = true;
    i.make = []( const Par & ) { Made m; m.sched = std::make_shared< Sched >(); m.s = std::make_shared< S >( SimChecker( m.sched.get() ) , SimAdjuster( m.sched.get() ) ); return m; };
    items().push_back( i );
}

// Rosenbrock: its own state type
typedef boost::numeric::ublas::vector< double > UV; typedef boost::numeric::ublas::matrix< double > UM;
struct UJac
{
    Env *e;
    void operator()( const UV &x , UM &J , const double &t , UV &dfdt ) const
    {
        size_t n = x.size(); e->rhs_enter( n , J.size1() );
        for( size_t i = 0 ; i < n ; ++i ) for( size_t j = 0 ; j < n ; ++j ) J( i , j ) = 0;
        for( size_t i = 0 ; i < n ; ++i ) { double dii , dij , dt; e->p.jac( i , n , x[i] , x[( i + 1 ) % n] , t , dii , dij , dt ); J( i , i ) += dii; J( i , ( i + 1 ) % n ) += dij; dfdt[i] = dt; }
    }
};
template< class R > void add_ros( const char *name , bool resizes )
{
    typedef rosenbrock4_controller< R > S;
    Item i; i.name = name; i.kind = ROS; i.fsal = false; i.resizes = resizes; i.simd = false; i.so = 4; i.eo = 3; i.forms = { 0 , 3 };
    i.make = []( const Par &p ) { Made m; m.s = p.mx ? std::make_shared< S >( p.ea , p.er , p.mx ) : std::make_shared< S >( p.ea , p.er ); return m; };
    i.go = []( void *v , Io &io )
    {
        S &s = *static_cast< S * >( v );
        UV x( io.x.size() ) , o( io.x.size() , -7. ); std::copy( io.x.begin() , io.x.end() , x.begin() );
        std::pair< Sys , UJac > sys( Sys{ io.e } , UJac{ io.e } );
        if( io.form == 0 ) io.acc = ( io.pass ? s.try_step( std::make_pair( std::ref( sys.first ) , std::ref( sys.second ) ) , x , io.t , io.dt ) : s.try_step( sys , x , io.t , io.dt ) ) == success;
        else { io.acc = s.try_step( sys , x , io.t , o , io.dt ) == success; io.outofplace = true; io.out.assign( o.begin() , o.end() ); }
        io.x.assign( x.begin() , x.end() );
    };
    i.reset = []( void * , Ctx & , Env & , const V & , double , int ) { };
    items().push_back( i );
}
#define T8( cls , R ) cls< V , double , V , double , RA , DO , R >
struct bs32 : explicit_error_generic_rk< 4 , 3 , 3 , 2 , V >
{
    typedef explicit_error_generic_rk< 4 , 3 , 3 , 2 , V > B;
    static boost::array< double , 1 > a1() { boost::array< double , 1 > r = {{ 0.5 }}; return r; }
    static boost::array< double , 2 > a2() { boost::array< double , 2 > r = {{ 0 , 0.75 }}; return r; }
    static boost::array< double , 3 > a3() { boost::array< double , 3 > r = {{ 2. / 9 , 1. / 3 , 4. / 9 }}; return r; }
    static boost::array< double , 4 > b() { boost::array< double , 4 > r = {{ 2. / 9 , 1. / 3 , 4. / 9 , 0 }}; return r; }
    static boost::array< double , 4 > b2() { boost::array< double , 4 > r = {{ 2. / 9 - 7. / 24 , 1. / 3 - 0.25 , 4. / 9 - 1. / 3 , -0.125 }}; return r; }
    static boost::array< double , 4 > cc() { boost::array< double , 4 > r = {{ 0 , 0.5 , 0.75 , 1 }}; return r; }
    bs32() : B( boost::fusion::make_vector( a1() , a2() , a3() ) , b() , b2() , cc() ) { }
};
template< class S > void add_bs( const char *name , bool resizes )
{
    Item i = item< S , GoBs >( name , BS , false , resizes , 8 , 8 , { 0 , 1 , 2 , 3 , 4 } );
    i.make = []( const Par &p ) { Made m; m.s = std::make_shared< S >( p.ea , p.er , p.ax , p.ad , p.mx ); return m; };
    items().push_back( i );
}
template< class S > void add_abm( const char *name , bool resizes )
{
    Item i = item< S , GoTwo >( name , ABM , false , resizes , 3 , 3 , { 0 , 3 } );
    i.make = []( const Par &p ) { Made m; m.s = std::make_shared< S >( typename S::step_adjuster_type( p.ea , p.er , p.mx ? std::fabs( p.mx ) : 1e3 ) ); return m; };
    items().push_back( i );
}
struct InitItems
{
    InitItems()
    {
        add_rk< T8( runge_kutta_cash_karp54 , IR ) , IR , GoRk >( "controlled cash_karp54" , 0 , 5 , 4 , ref::t_ck54() );
        add_rk< T8( runge_kutta_cash_karp54_classic , AR ) , AR , GoRk >( "controlled cash_karp54_classic/always_resizer" , 1 , 5 , 4 , ref::t_ck54() );
        add_rk< T8( runge_kutta_fehlberg78 , IR ) , IR , GoRk >( "controlled fehlberg78" , 0 , 8 , 7 , ref::t_f78() );
        add_rk< bs32 , IR , GoRk >( "controlled explicit_error_generic_rk" , 0 , 3 , 2 , ref::t_bs32() );
        add_rk< T8( runge_kutta_dopri5 , IR ) , IR , GoFsal >( "controlled dopri5" , 0 , 5 , 4 , ref::t_dp5() );
        add_rk< T8( runge_kutta_dopri5 , AR ) , AR , GoFsal >( "controlled dopri5/always_resizer" , 1 , 5 , 4 , ref::t_dp5() );
        add_sim< T8( runge_kutta_cash_karp54 , AR ) , AR , GoRk >( "controlled cash_karp54, simulated checker and adjuster" , 1 , 5 , 4 , ref::t_ck54() );
        add_sim< T8( runge_kutta_dopri5 , IR ) , IR , GoFsal >( "controlled dopri5, simulated checker and adjuster" , 0 , 5 , 4 , ref::t_dp5() );
        add_ros< rosenbrock4< double > >( "rosenbrock4_controller" , 0 );
        add_ros< rosenbrock4< double , default_rosenbrock_coefficients< double > , AR > >( "rosenbrock4_controller/always_resizer" , 1 );
        add_bs< bulirsch_stoer< V > >( "bulirsch_stoer" , 0 );
        add_bs< bulirsch_stoer< V , double , V , double , RA , DO , AR > >( "bulirsch_stoer/always_resizer" , 1 );
        add_abm< controlled_adams_bashforth_moulton< adaptive_adams_bashforth_moulton< 4 , V > > >( "controlled_adams_bashforth_moulton<4>" , 0 );
        add_abm< controlled_adams_bashforth_moulton< adaptive_adams_bashforth_moulton< 6 , V > , boost::numeric::odeint::detail::pid_step_adjuster< V , double , V , double , RA , DO , boost::numeric::odeint::detail::H312PID > > >( "controlled_adams_bashforth_moulton<6>, PID" , 0 );
    }
} init_items;

double weighted( const Par &p , const V &err , const V &x , const V &dx , double dt , double abs_noise , double &noise )
{
    double m = 0; noise = 0;
    for( size_t i = 0 ; i < x.size() ; ++i )
    {
        double den = p.ea + p.er * ( p.ax * std::fabs( x[i] ) + p.ad * std::fabs( dt ) * std::fabs( dx[i] ) );
        m = std::max( m , std::fabs( err[i] ) / den ); noise = std::max( noise , abs_noise / den );
    }
    return m;
}
struct RosState { bool first = true , rejected = false; double err_old = 0 , dt_old = 0; };

SIM_SCENARIO( P07 , controlled_steps , 1 )
{
    const Item &it = items()[ c.draw( items().size() ) ];
    c.note( "stepper %s" , it.name ); c.cover( it.name );
    Env e( c ); e.p.draw( c );
    double dir = c.chance( 400 ) ? -1 : 1;
    if( it.kind == ROS && c.chance( 500 ) ) { dir = 1; e.p.stiff = c.real( 1 , 40 ); }
    static const double tols[] = { 1e-6 , 1e-4 , 1e-3 , 1e-8 , 1e-2 };
    Par p; p.ea = c.pick( tols ); p.er = c.pick( tols ); p.ax = 1; p.ad = 1; p.mx = 0;
    if( c.chance( 300 ) && it.kind != ROS && it.kind != ABM ) { p.ax = c.real( 0 , 2 ); p.ad = c.real( 0 , 2 ); }
    if( c.chance( 300 ) ) p.mx = dir * c.real( 0.02 , 0.4 );
    c.note( "eps_abs %g eps_rel %g a_x %g a_dxdt %g max_dt %g" , p.ea , p.er , p.ax , p.ad , p.mx );
    Made s = it.make( p );
    size_t n = 1 + c.draw( 5 ); if( c.chance( 60 ) ) n = 6 + c.draw( 20 );
    V x( n ); for( double &v : x ) v = c.real( -2 , 2 );
    double t = c.real( -5 , 5 ) , dt = dir * c.real( 0.02 , 1.2 );
    if( c.chance( 100 ) ) dt = dir * c.real( 1 , 4 );
    RosState rs; bool internal_ok = false; int rejects_in_row = 0;
    int steps = 2 + (int)c.draw( 14 );
    for( int i = 0 ; i < steps ; ++i )
    {
        if( i && c.chance( 120 ) )
        {
            if( it.resizes && c.chance( 500 ) ) { n = 1 + c.draw( 12 ); x.resize( n ); c.fault( "size-change" ); }
            for( double &v : x ) v = c.real( -2 , 2 );
            t = c.real( -5 , 5 ); internal_ok = false;
            if( c.chance( 300 ) ) { double st = e.p.stiff; e.p.draw( c ); e.p.stiff = st; c.fault( "system-changed" ); }
            e.n = n; it.reset( s.s.get() , c , e , x , t , 0 ); c.fault( "jump" );
        }
        if( c.chance( 80 ) && it.kind != ABM ) { dt = dir * c.real( 0.02 , 1.5 ); c.fault( "dt-changed-by-caller" ); }
        Io io; io.e = &e; io.x = x; io.t = t; io.dt = dt; io.form = it.forms[ c.draw( it.forms.size() ) ]; io.pass = (int)c.draw( 3 ); io.outofplace = false; io.acc = false;
        io.out.assign( n , -9.25 ); e.n = n; e.p.autonomous = false;
        ref::F f = ref_rhs( e.p );
        V dx( n ); f( x , dx , t ); io.dxdt = dx;
        if( it.fsal && io.form < 2 && !internal_ok ) { it.reset( s.s.get() , c , e , x , t , (int)c.draw( 3 ) ); internal_ok = true; }
        Sched *sc = s.sched.get();
        if( sc )
        {
            sc->checks = sc->dec = sc->inc = sc->lim = 0;
            sc->limit_ok = !c.chance( 150 ); sc->limit = dt * 0.5; sc->factor = c.real( 0.1 , 3 );
            static const double errs[] = { 0 , 0.3 , 1 , 1.0000001 , 2 , 1e6 , 0.999999 };
            sc->err = c.pick( errs );
        }
        long calls0 = e.total;
        it.go( s.s.get() , io );
        V nx = io.outofplace ? io.out : io.x;
        c.log( io.acc ? "accepted" : "rejected" , io.t , io.dt , io.form ); c.logvec( "x" , io.acc ? nx : io.x );
        if( !io.acc ) c.fault( "step-rejected" );
        // ---- the contract of every controlled step
        if( io.outofplace && ref::maxdiff( io.x , x ) != 0 ) c.fail( "input-modified" , "%s: an out-of-place try_step changed its input state" , it.name );
        if( !io.acc && ( io.x != x || io.t != t ) ) c.fail( "rejected-step-changed-state" , "%s: a rejected step changed the state or the time (t %.17g -> %.17g)" , it.name , t , io.t );
        if( io.acc && io.t != t + dt ) c.fail( "time-not-advanced" , "%s: the accepted step from t=%.17g with dt=%.17g ended at %.17g" , it.name , t , dt , io.t );
        if( !sc && !( io.dt * dir > 0 ) ) c.fail( "dt-sign" , "%s: %s step proposes dt=%g after dt=%g" , it.name , io.acc ? "accepted" : "rejected" , io.dt , dt );
        if( !sc && !io.acc && !( std::fabs( io.dt ) < std::fabs( dt ) ) ) c.fail( "reject-not-smaller" , "%s: the rejected step with dt=%.17g proposes dt=%.17g" , it.name , dt , io.dt );
        if( !sc && p.mx && !( std::fabs( io.dt ) <= std::fabs( p.mx ) * ( 1 + 1e-12 ) ) && !( it.kind == ABM && !io.acc ) ) c.fail( "max-dt" , "%s: proposes dt=%.17g with max_dt=%.17g (dt was %g)" , it.name , io.dt , p.mx , dt );
        if( it.kind == RK && it.fsal && io.form >= 2 )
        {
            V want( n ); if( io.acc ) f( nx , want , io.t ); else want = dx;
            if( !( ref::maxdiff( io.dxdt , want ) <= 2e-12 * ( 1 + ref::maxabs( want ) ) ) ) c.fail( "derivative-out" , "%s: after %s step the derivative is not that of the state" , it.name , io.acc ? "an accepted" : "a rejected" );
        }
        if( !it.fsal && io.dxdt != dx ) c.fail( "input-modified" , "%s changed the derivative passed in" , it.name );
        if( it.fsal && io.form >= 2 && io.acc ) internal_ok = false;
        bool over_limit = sc ? !sc->limit_ok : it.kind != ABM && p.mx && std::fabs( dt ) > std::fabs( p.mx ) * ( 1 + 1e-9 );
        bool near_limit = !sc && p.mx && std::fabs( std::fabs( dt ) - std::fabs( p.mx ) ) <= std::fabs( p.mx ) * 1e-9;
        if( over_limit )
        {
            double want = sc ? sc->limit : p.mx;
            if( io.acc || io.dt != want ) c.fail( "initial-dt-over-limit" , "%s: dt=%g exceeds the limit %g, but the step was %s and dt became %g" , it.name , dt , want , io.acc ? "accepted" : "rejected" , io.dt );
            c.cover( "over-limit" );
        }
        else if( it.kind == RK )
        {
            ref::RkResult r = ref::rk_step( it.T , f , x , t , dt );
            double km = 0; for( auto &k : r.k ) km = std::max( km , ref::maxabs( k ) );
            double an = 2e-14 * ( 1 + ref::maxabs( x ) + std::fabs( dt ) * km ) , sca = 1 + ref::maxabs( x ) + std::fabs( dt ) * km;
            if( io.acc && !( ref::maxdiff( nx , r.x ) <= 2e-12 * sca ) ) c.fail( "step-result" , "%s: the accepted step (form %d, dt=%g) differs from the method by %g" , it.name , io.form , dt , ref::maxdiff( nx , r.x ) );
            if( sc )
            {
                V neg = r.err; for( double &v : neg ) v = -v;
                if( sc->checks != 1 || sc->x != x || !( ref::maxdiff( sc->dxdt , dx ) <= 2e-12 * ( 1 + ref::maxabs( dx ) ) ) || sc->chk_dt != dt || !( std::min( ref::maxdiff( sc->xerr , r.err ) , ref::maxdiff( sc->xerr , neg ) ) <= 100 * an ) )
                    c.fail( "checker-arguments" , "%s: the error checker was called %d times or not with the old state, its derivative, the error estimate and dt" , it.name , sc->checks );
                if( io.acc != ( sc->err <= 1 ) ) c.fail( "accept-decision" , "%s: error %g but the step was %s" , it.name , sc->err , io.acc ? "accepted" : "rejected" );
                if( sc->inc != io.acc || sc->dec != !io.acc || sc->adj_dt != dt || sc->adj_err != sc->err || sc->adj_order != ( io.acc ? it.so : it.eo ) || io.dt != dt * sc->factor )
                    c.fail( "adjuster" , "%s: the step adjuster was not used as documented (increase %d, decrease %d, dt %g of %g, error %g, order %d)" , it.name , sc->inc , sc->dec , sc->adj_dt , dt , sc->adj_err , sc->adj_order );
            }
            else
            {
                double nz , v = weighted( p , r.err , x , dx , dt , an , nz ) , lo = std::max( 0.0 , v - nz ) , hi = v + nz;
                if( io.acc && lo > 1 ) c.fail( "accept-decision" , "%s: accepted with a weighted error of %.9g (dt=%g, form %d)" , it.name , v , dt , io.form );
                if( !io.acc && hi < 1 ) c.fail( "accept-decision" , "%s: rejected with a weighted error of %.9g (dt=%g, form %d)" , it.name , v , dt , io.form );
                double a , b , q = std::fabs( io.dt / dt ) , lim = p.mx ? std::fabs( p.mx / dt ) : HUGE_VAL;
                if( !io.acc ) { a = std::max( 0.2 , 0.9 * std::pow( hi , -1.0 / ( it.eo - 1 ) ) ); b = std::max( 0.2 , 0.9 * std::pow( std::max( lo , 1.0 ) , -1.0 / ( it.eo - 1 ) ) ); }
                else
                {
                    auto g = [&]( double w , double cap ) { return w < 0.5 ? std::min( cap , 0.9 * std::pow( w , -1.0 / it.so ) ) : 1.0; };
                    a = std::min( g( hi , 4.5 ) , g( lo , 4.5 ) ); b = std::max( g( hi , 5 ) , g( lo , 5 ) );
                    if( b > 1 ) c.nontrivial();
                }
                a = std::min( a , lim ); b = std::min( b , lim );
                if( !near_limit && !( q >= a * ( 1 - 1e-9 ) && q <= b * ( 1 + 1e-9 ) ) )
                    c.fail( "new-step-size" , "%s: %s step with dt=%.9g and weighted error %.9g gives dt=%.9g (factor %.9g, documented %.9g..%.9g)" , it.name , io.acc ? "accepted" : "rejected" , dt , v , io.dt , q , a , b );
            }
        }
        else if( it.kind == ROS )
        {
            auto jac = [&]( const V &y , ref::M &J , double tt , V &ft ) { for( size_t a = 0 ; a < n ; ++a ) { double dii , dij , dd; e.p.jac( a , n , y[a] , y[( a + 1 ) % n] , tt , dii , dij , dd ); J[a][a] += dii; J[a][( a + 1 ) % n] += dij; ft[a] = dd; } };
            ref::RosResult r = ref::rosenbrock( f , jac , x , t , dt );
            double km = 0; for( auto &k : r.k ) km = std::max( km , ref::maxabs( k ) );
            double sca = ( 1 + ref::maxabs( x ) + 20 * km ) * ( 1 + std::fabs( dt ) * ( 1 + e.p.stiff ) );
            if( io.acc && !( ref::maxdiff( nx , r.x ) <= 1e-11 * sca ) ) c.fail( "step-result" , "%s: the accepted step (dt=%g) differs from the method by %g" , it.name , dt , ref::maxdiff( nx , r.x ) );
            double v = 0 , nz = 0;
            for( size_t j = 0 ; j < n ; ++j ) { double sk = p.ea + p.er * std::max( std::fabs( x[j] ) , std::fabs( r.x[j] ) ); v += r.err[j] * r.err[j] / sk / sk; nz = std::max( nz , 1e-13 * sca / sk ); }
            v = std::sqrt( v / n );
            if( io.acc && v - nz > 1 + 1e-9 ) c.fail( "accept-decision" , "%s: accepted with an error of %.9g (dt=%g)" , it.name , v , dt );
            if( !io.acc && v + nz < 1 - 1e-9 ) c.fail( "accept-decision" , "%s: rejected with an error of %.9g (dt=%g)" , it.name , v , dt );
            auto clip = []( double z ) { return std::max( 1.0 / 6 , std::min( 5.0 , z ) ); };
            double lo = HUGE_VAL , hi = 0;
            for( int q = -1 ; q <= 1 ; ++q )
            {
                double w = std::max( 0.0 , v + q * nz ) , fac = clip( std::pow( w , 0.25 ) / 0.9 ) , nd = std::fabs( dt ) / fac;
                if( io.acc )
                {
                    if( !rs.first ) { double fp = clip( std::fabs( rs.dt_old / dt ) * std::pow( w * w / rs.err_old , 0.25 ) / 0.9 ); nd = std::fabs( dt ) / std::max( fac , fp ); }
                    if( rs.rejected ) nd = std::min( nd , std::fabs( dt ) );
                    if( p.mx ) nd = std::min( nd , std::fabs( p.mx ) );
                }
                lo = std::min( lo , nd ); hi = std::max( hi , nd );
            }
            double q = std::fabs( io.dt );
            if( !near_limit && !( q >= lo * ( 1 - 1e-6 ) && q <= hi * ( 1 + 1e-6 ) ) )
                c.fail( "new-step-size" , "%s: %s step with dt=%.9g, error %.9g%s gives dt=%.9g, the published controller %.9g" , it.name , io.acc ? "accepted" : "rejected" , dt , v , rs.rejected ? " after a rejection" : "" , io.dt , lo );
            if( io.acc ) { rs.first = false; rs.dt_old = std::fabs( dt ); rs.err_old = std::max( 0.01 , v ); rs.rejected = false; } else rs.rejected = true;
        }
        else if( it.kind == BS )
        {
            bool found = false , all_good = true , proposed = rs.rejected && io.acc && io.dt == dt; double best = HUGE_VAL , bv = 0 , q = std::fabs( io.dt ); std::vector< int > ns( 1 , 2 ); std::string props;
            for( int k = 1 ; k <= 8 ; ++k )
            {
                ns.push_back( 2 * ( k + 1 ) );
                ref::ExResult r = ref::extrapolate( f , x , t , dt , ns );
                double nz , v = weighted( p , r.err , x , dx , dt , 1e-12 * ( 1 + ref::maxabs( x ) + ref::maxabs( r.x ) + std::fabs( dt ) * ref::maxabs( dx ) ) , nz );
                if( !( v + nz < 1 ) ) all_good = false;
                // the optimal step size of column k, for the same or for the next order (Numerical Recipes 17.3)
                double fmin = std::pow( 0.02 , 1.0 / ( 2 * k + 1 ) ) , next = ( k + 3.0 ) / ( k + 1.0 );
                auto opt = [&]( double w ) { return std::fabs( dt ) * std::max( fmin / 4 , std::min( 1 / fmin , 0.94 * std::pow( 0.65 / w , 1.0 / ( 2 * k + 1 ) ) ) ); };
                double ol = opt( v + nz ) , oh = opt( std::max( 0.0 , v - nz ) ) , lim = p.mx ? std::fabs( p.mx ) : HUGE_VAL;
                for( double g : { 1.0 , next } ) if( q >= std::min( lim , ol * g ) * ( 1 - 1e-9 ) && q <= std::min( lim , oh * g ) * ( 1 + 1e-9 ) ) proposed = true;
                char buf[80]; snprintf( buf , 80 , " %.9g" , opt( v ) ); props += buf;
                double d = ref::maxdiff( nx , r.x );
                if( io.acc && d <= 1e-11 * ( 1 + ref::maxabs( x ) + ref::maxabs( r.x ) ) ) { if( v - nz < 1 ) found = true; else bv = v; }
                best = std::min( best , d );
            }
            if( io.acc && !found ) c.fail( "accept-decision" , "%s: the accepted step (dt=%g, form %d) is %s" , it.name , dt , io.form , bv ? "an extrapolation whose error estimate exceeds the tolerance" : "no midpoint extrapolation of this step" );
            if( !proposed ) c.fail( "new-step-size" , "%s: %s step with dt=%.9g proposes dt=%.9g, which is not the optimal step size of any order (%s )" , it.name , io.acc ? "accepted" : "rejected" , dt , io.dt , props.c_str() );
            rs.rejected = !io.acc;
            if( !io.acc && all_good ) c.fail( "accept-decision" , "%s: rejected although every extrapolation meets the tolerance (dt=%g)" , it.name , dt );
        }
        (void)calls0;
        if( io.acc ) { x = nx; rejects_in_row = 0; c.elapse( dt ); } else { c.nontrivial(); ++rejects_in_row; }
        if( !io.acc && it.kind == ABM ) { }
        t = io.t; dt = io.dt;
        if( sc && !( std::fabs( dt ) > 1e-3 && std::fabs( dt ) < 2 ) ) dt = dir * c.real( 0.02 , 1 );
        if( ref::maxabs( x ) > 50 || std::fabs( dt ) > 1e4 ) break;
    }
}
}
