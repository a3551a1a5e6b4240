// P22: the convenience entry points and the different ways to write a call stand for the general ones.
#include "entry.hpp"
#include <boost/array.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
using namespace entry;

namespace entry {
Env *fp_env; Obs *fp_obs;
void fp_sys( const V &x , V &d , double t ) { Sys f{ fp_env }; f( x , d , t ); }
void fp_obs_call( const V &x , double t ) { ( *fp_obs )( x , t ); }
const char *form_name[ F_COUNT ] = { "plain call" , "stepper by std::ref" , "stepper by boost::ref" , "system by std::ref" , "system by boost::ref" , "system as a function pointer" , "system as a lambda" ,
    "observer by std::ref" , "observer by boost::ref" , "observer as a function pointer" , "const observer" , "no observer" , "null_observer" , "observer_collection" , "with a step checker" ,
    "checker and observer by std::ref" , "everything by boost::ref" , "times as a range" , "times as a pair of list iterators" , "state as a range" };
std::vector< Kind > &kinds() { static std::vector< Kind > k; return k; }
}

namespace {
const char *driver_name[] = { "integrate_const" , "integrate_n_steps" , "integrate_adaptive" , "integrate_times" };
bool by_ref( int f ) { return f == F_STEPPER_STDREF || f == F_STEPPER_BOOSTREF || f == F_CHECKER_ALL_REF; }

void draw_job( Ctx &c , Job &j , int form , bool controlled )
{
    j.driver = (int)c.draw( 4 );
    if( form == F_TIMES_RANGE || form == F_TIMES_LIST ) j.driver = 3;
    double dir = c.chance( 350 ) ? -1 : 1;
    j.t0 = c.chance( 300 ) ? 0 : c.real( -3 , 3 );
    j.dt = dir * c.real( 0.02 , 0.3 );
    j.n = c.draw( 7 );
    j.t1 = j.t0 + j.dt * ( c.chance( 300 ) ? (double)c.draw( 8 ) : c.real( 0 , 8 ) );
    double t = j.t0;
    for( size_t i = 0 , m = 1 + c.draw( 6 ) ; i < m ; ++i ) { j.times.push_back( t ); t += j.dt * c.real( 0.2 , 2.5 ); }
    j.x0.resize( 1 + c.draw( 4 ) ); for( double &v : j.x0 ) v = c.real( -1.5 , 1.5 );
    j.prefix = c.chance( 500 ) ? (int)c.draw( 7 ) : 0; (void)controlled;
    if( c.chance( 250 ) ) { j.rhs_throws = (long)c.draw( 40 ); j.kind = (int)c.draw( 2 ); }
    if( form != F_OBS_NONE && form != F_OBS_NULL && c.chance( 250 ) ) j.obs_throws = (long)c.draw( 8 );
}

void same( Ctx &c , const char *k , int d , int form , const Log &a , const Log &b , bool passing )
{
    #define DIFF( what ) c.fail( passing ? "by-value-by-reference" : "call-form" , "%s of %s, %s: %s not as in the plain call%s" , driver_name[d] , k , form_name[form] , what , passing ? " with the stepper by value" : "" )
    bool both = a.observes && b.observes;
    if( a.thrown != b.thrown ) DIFF( "what was thrown is" );
    if( both && !same_values( a.seen , b.seen ) ) DIFF( "the observations are" );
    if( !same_values( a.ret , b.ret ) ) DIFF( "the returned value is" );
    if( !same_values( a.x , b.x ) ) DIFF( "the state of the caller afterwards is" );
    // an integration without an observer need not stop at the points of observation
    if( ( both || d == 1 || d == 2 ) && a.evals != b.evals ) DIFF( "the number of right-hand side evaluations is" );
    if( both && !passing && !same_values( a.after , b.after ) ) DIFF( "the stepper of the caller afterwards is" );
    #undef DIFF
}

SIM_SCENARIO( P22 , call_forms , 4 )
{
    const Kind &k = kinds()[ c.draw( kinds().size() ) ];
    int form = 1 + (int)c.draw( F_COUNT - 1 );
    if( form == F_STATE_RANGE && !k.has_range ) form = F_OBS_BOOSTREF;
    Prob p; p.draw( c ); Job j; draw_job( c , j , form , k.controlled );
    c.note( "%s, %s, %s: t0 %.17g t1 %.17g dt %.17g n %zu, %zu times, size %zu, %d steps before, rhs throws at %ld, observer at %ld" , k.name , driver_name[ j.driver ] , form_name[ form ] , j.t0 , j.t1 , j.dt , j.n , j.times.size() , j.x0.size() , j.prefix , j.rhs_throws , j.obs_throws );
    c.cover( k.name ); c.cover( form_name[ form ] ); c.cover( driver_name[ j.driver ] );
    Log a = k.run( c , p , j , F_PLAIN , by_ref( form ) );
    c.logvec( "seen" , a.seen ); c.logvec( "x" , a.x );
    Log b = k.run( c , p , j , form , by_ref( form ) );
    same( c , k.name , j.driver , form , a , b , false );
    // the same trajectory whether the stepper comes by value or by reference.  (Adams steppers by value make the last,
    // shorter step of integrate_adaptive with the history the caller had: they are for constant steps.)
    if( by_ref( form ) && !( k.history && j.driver == 2 ) ) same( c , k.name , j.driver , form , k.run( c , p , j , F_PLAIN , false ) , b , true );
    if( !a.thrown && a.evals > 3 ) c.nontrivial();
    c.elapse( j.t1 - j.t0 );
}

// ------------------------------------------------------------------------------- factories
// an algebra that knows where it came from
struct Cookie : ode::range_algebra
{
    long *count = 0; int id = 0;
    #define FE( N ) template< class... A > void for_each##N( A &&... a ) const { if( count ) { sim::Harness untracked; ++*count; } ode::range_algebra::for_each##N( std::forward< A >( a )... ); }
    FE( 1 ) FE( 2 ) FE( 3 ) FE( 4 ) FE( 5 ) FE( 6 ) FE( 7 ) FE( 8 ) FE( 9 ) FE( 10 ) FE( 11 ) FE( 12 ) FE( 13 ) FE( 14 ) FE( 15 )
    #undef FE
    template< class S > typename ode::norm_result_type< S >::type norm_inf( const S &s ) const { if( count ) { sim::Harness untracked; ++*count; } return ode::range_algebra::norm_inf( s ); }
};

struct G
{
    Prob p; Ctx *c; long *evals;
    template< class X , class D > void operator()( const X &x , D &d , double t ) const
    {
        sim::Harness untracked; c->tick(); ++*evals;
        size_t n = x.size();
        for( size_t i = 0 ; i < n ; ++i ) d[i] = p.f( i , n , x[i] , x[ ( i + 1 ) % n ] , t );
    }
};
struct GJ
{
    G g;
    template< class X , class J , class D > void operator()( const X &x , J &m , double t , D &dt ) const
    {
        sim::Harness untracked;
        size_t n = x.size();
        for( size_t i = 0 ; i < n ; ++i ) for( size_t k = 0 ; k < n ; ++k ) m( i , k ) = 0;
        for( size_t i = 0 ; i < n ; ++i ) { double dii , dij , d; g.p.jac( i , n , x[i] , x[ ( i + 1 ) % n ] , t , dii , dij , d ); m( i , i ) += dii; m( i , ( i + 1 ) % n ) += dij; dt[i] = d; }
    }
};
struct Tol { double abs , rel , mx; bool limited; double t , dt; int steps; size_t n; };
template< class X > std::vector< double > flat( const X &x ) { return std::vector< double >( x.begin() , x.end() ); }

template< class S , class X , class F > void ctl_steps( Ctx &c , S &s , const F &f , X x , const Tol &o , std::vector< double > &h )
{
    typename S::time_type t = o.t , dt = o.dt;
    for( int i = 0 ; i < o.steps ; ++i )
    {
        bool ok = s.try_step( f , x , t , dt ) == ode::success;
        h.push_back( ok ); h.push_back( t ); h.push_back( dt ); auto y = flat( x ); h.insert( h.end() , y.begin() , y.end() );
        if( !ok ) c.fault( "step-rejected" );
    }
}
template< class S , class X , class F > void dense_steps( Ctx &c , S &s , const F &f , X x , const Tol &o , std::vector< double > &h )
{
    typedef typename S::time_type T;
    s.initialize( x , (T)o.t , (T)o.dt );
    for( int i = 0 ; i < o.steps ; ++i )
    {
        std::pair< T , T > r = s.do_step( f );
        h.push_back( r.first ); h.push_back( r.second ); h.push_back( s.current_time_step() );
        X y = x; s.calc_state( (T)( r.first + ( r.second - r.first ) * (T)0.375 ) , y );
        auto v = flat( y ); h.insert( h.end() , v.begin() , v.end() );
        v = flat( s.current_state() ); h.insert( h.end() , v.begin() , v.end() );
    }
    (void)c;
}
void expect( Ctx &c , const char *what , const std::vector< double > &a , const std::vector< double > &b )
{
    c.logvec( "h" , a ); c.cover( what );
    for( size_t i = 0 ; i < std::min( a.size() , b.size() ) ; ++i ) if( a[i] != b[i] && !( a[i] != a[i] && b[i] != b[i] ) ) c.fail( "factory" , "%s: the stepper made by the factory differs from the one put together by hand, value %zu of the history: %.17g and %.17g" , what , i , a[i] , b[i] );
    if( a.size() != b.size() ) c.fail( "factory" , "%s: histories of different length" , what );
}
template< class Fn > auto guarded( std::vector< double > &h , Fn fn ) -> void
{
    try { fn(); } catch( ode::odeint_error & ) { h.push_back( -12345 ); } catch( std::exception & ) { h.push_back( -54321 ); }
}

template< class S , class X , class F > void rk_controlled( Ctx &c , const char *what , const F &f , const X &x , const Tol &o )
{
    using namespace ode;
    typedef typename S::value_type W; typedef typename S::time_type T;
    typedef controlled_runge_kutta< S > C;
    long na = 0 , nb = 0; bool given = c.chance( 600 );
    Cookie ka , kb; if( given ) { ka.count = &na; kb.count = &nb; ka.id = kb.id = 3; }
    std::vector< double > a , b;
    guarded( a , [&]{ C s( given ? ( o.limited ? make_controlled( (W)o.abs , (W)o.rel , (T)o.mx , S( ka ) ) : make_controlled( (W)o.abs , (W)o.rel , S( ka ) ) )
                                  : ( o.limited ? make_controlled< S >( (W)o.abs , (W)o.rel , (T)o.mx ) : make_controlled< S >( (W)o.abs , (W)o.rel ) ) );
        ctl_steps( c , s , f , x , o , a ); } );
    guarded( b , [&]{ typename C::error_checker_type ec( (W)o.abs , (W)o.rel ); typename C::step_adjuster_type sa( o.limited ? (T)o.mx : (T)0 );
        C s( ec , sa , given ? S( kb ) : S() ); ctl_steps( c , s , f , x , o , b ); } );
    expect( c , what , a , b );
    if( na != nb ) c.fail( "factory" , "%s: the stepper given to make_controlled was not used (%ld instead of %ld calls of its algebra)" , what , na , nb );
}
template< class S , class X , class F > void rk_dense( Ctx &c , const char *what , const F &f , const X &x , const Tol &o )
{
    using namespace ode;
    typedef typename S::value_type W; typedef typename S::time_type T;
    typedef controlled_runge_kutta< S > C; typedef dense_output_runge_kutta< C > D;
    long na = 0 , nb = 0; bool given = c.chance( 600 );
    Cookie ka , kb; if( given ) { ka.count = &na; kb.count = &nb; }
    std::vector< double > a , b;
    guarded( a , [&]{ D s( given ? ( o.limited ? make_dense_output( (W)o.abs , (W)o.rel , (T)o.mx , S( ka ) ) : make_dense_output( (W)o.abs , (W)o.rel , S( ka ) ) )
                                  : ( o.limited ? make_dense_output< S >( (W)o.abs , (W)o.rel , (T)o.mx ) : make_dense_output< S >( (W)o.abs , (W)o.rel ) ) );
        dense_steps( c , s , f , x , o , a ); } );
    guarded( b , [&]{ typename C::error_checker_type ec( (W)o.abs , (W)o.rel ); typename C::step_adjuster_type sa( o.limited ? (T)o.mx : (T)0 );
        D s( C( ec , sa , given ? S( kb ) : S() ) ); dense_steps( c , s , f , x , o , b ); } );
    expect( c , what , a , b );
    if( na != nb ) c.fail( "factory" , "%s: the stepper given to make_dense_output was not used (%ld instead of %ld calls of its algebra)" , what , na , nb );
}

template< class W , class T > void factories( Ctx &c , const char *types )
{
    using namespace ode;
    typedef std::vector< W > X;
    Prob p; p.draw( c ); long ev = 0; G g{ p , &c , &ev };
    Tol o; double base = std::is_same< W , float >::value ? 1e-3 : 1e-5;
    o.abs = base * std::pow( 10.0 , c.real( -1 , 1 ) ); o.rel = c.chance( 150 ) ? 0 : base * std::pow( 10.0 , c.real( -1 , 1 ) );
    double dir = c.chance( 350 ) ? -1 : 1;
    o.limited = c.chance( 500 ); o.mx = dir * c.real( 0.02 , 0.5 );
    o.t = c.chance( 300 ) ? 0 : c.real( -3 , 3 ); o.dt = dir * c.real( 0.02 , 1.5 ); if( o.limited && c.chance( 700 ) ) o.dt = o.mx * c.unit();
    if( o.dt == 0 ) o.dt = o.mx;
    o.steps = 1 + (int)c.draw( 12 ); o.n = 1 + c.draw( 4 );
    X x( o.n ); for( W &v : x ) v = (W)c.real( -1.5 , 1.5 );
    int which = (int)c.draw( 8 );
    c.note( "factory %d %s abs %g rel %g max_dt %g (%d) t %g dt %g steps %d n %zu" , which , types , o.abs , o.rel , o.mx , o.limited , o.t , o.dt , o.steps , o.n );
    char name[ 96 ];
    #define WHAT( s ) ( snprintf( name , sizeof name , "%s, %s" , s , types ) , name )
    switch( which )
    {
    case 0 : rk_controlled< runge_kutta_cash_karp54< X , W , X , T , Cookie > >( c , WHAT( "make_controlled cash_karp54" ) , g , x , o ); break;
    case 1 : rk_controlled< runge_kutta_cash_karp54_classic< X , W , X , T , Cookie > >( c , WHAT( "make_controlled cash_karp54_classic" ) , g , x , o ); break;
    case 2 : rk_controlled< runge_kutta_fehlberg78< X , W , X , T , Cookie > >( c , WHAT( "make_controlled fehlberg78" ) , g , x , o ); break;
    case 3 : rk_controlled< runge_kutta_dopri5< X , W , X , T , Cookie > >( c , WHAT( "make_controlled dopri5" ) , g , x , o ); break;
    case 4 : rk_dense< runge_kutta_dopri5< X , W , X , T , Cookie > >( c , WHAT( "make_dense_output dopri5" ) , g , x , o ); break;
    case 5 : // the factory of the controlled Adams stepper has a step size limit of its own default
    {
        typedef adaptive_adams_bashforth_moulton< 4 , X , W , X , T > S; typedef controlled_adams_bashforth_moulton< S > C;
        std::vector< double > a , b; o.steps += 6;
        guarded( a , [&]{ C s( o.limited ? make_controlled< S >( (W)o.abs , (W)o.rel , (T)o.mx ) : make_controlled< S >( (W)o.abs , (W)o.rel ) ); ctl_steps( c , s , g , x , o , a ); } );
        guarded( b , [&]{ typedef typename C::step_adjuster_type A; C s( o.limited ? A( o.abs , o.rel , (T)o.mx ) : A( o.abs , o.rel ) ); ctl_steps( c , s , g , x , o , b ); } );
        expect( c , WHAT( "make_controlled adaptive_adams_bashforth_moulton" ) , a , b ); break;
    }
    default :
    {
        // rosenbrock4 has one type for values and times
        typedef rosenbrock4< double > S; typedef rosenbrock4_controller< S > C; typedef rosenbrock4_dense_output< C > D;
        typedef boost::numeric::ublas::vector< double > U; U u( o.n ); for( size_t i = 0 ; i < o.n ; ++i ) u[i] = x[i];
        if( o.rel == 0 ) o.rel = o.abs;
        auto f = std::make_pair( g , GJ{ g } ); std::vector< double > a , b; S given;
        if( which == 6 )
        {
            guarded( a , [&]{ C s( c.chance( 500 ) ? ( o.limited ? make_controlled( o.abs , o.rel , o.mx , given ) : make_controlled( o.abs , o.rel , given ) ) : ( o.limited ? make_controlled< S >( o.abs , o.rel , o.mx ) : make_controlled< S >( o.abs , o.rel ) ) ); ctl_steps( c , s , f , u , o , a ); } );
            guarded( b , [&]{ if( o.limited ) { C s( o.abs , o.rel , o.mx ); ctl_steps( c , s , f , u , o , b ); } else { C s( o.abs , o.rel ); ctl_steps( c , s , f , u , o , b ); } } );
            expect( c , "make_controlled rosenbrock4" , a , b );
        }
        else
        {
            guarded( a , [&]{ D s( c.chance( 500 ) ? ( o.limited ? make_dense_output( o.abs , o.rel , o.mx , given ) : make_dense_output( o.abs , o.rel , given ) ) : ( o.limited ? make_dense_output< S >( o.abs , o.rel , o.mx ) : make_dense_output< S >( o.abs , o.rel ) ) ); dense_steps( c , s , f , u , o , a ); } );
            guarded( b , [&]{ if( o.limited ) { D s( C( o.abs , o.rel , o.mx ) ); dense_steps( c , s , f , u , o , b ); } else { D s( C( o.abs , o.rel ) ); dense_steps( c , s , f , u , o , b ); } } );
            expect( c , "make_dense_output rosenbrock4" , a , b );
        }
    }
    }
    if( ev > 10 ) c.nontrivial();
    c.elapse( o.dt * o.steps );
}
SIM_SCENARIO( P22 , factories , 2 )
{
    switch( c.draw( 3 ) )
    {
    case 0 : factories< double , double >( c , "double" ); break;
    case 1 : factories< float , double >( c , "float, time double" ); break;
    default : factories< float , float >( c , "float" ); break;
    }
}

// ------------------------------------------------------------------------------- integrate()
struct Rec { std::vector< double > *h; long *calls , limit; template< class X , class T > void operator()( const X &x , T t ) const { sim::Harness untracked; if( ( *calls )++ == limit ) throw ObsFault{ 1 }; h->push_back( t ); for( auto v : x ) h->push_back( v ); } };
G *fp_g;
template< class X > void fp_rhs( const X &x , X &d , double t ) { ( *fp_g )( x , d , t ); }

template< class W , class X , class T > void simple( Ctx &c , const char *types , X x )
{
    using namespace ode;
    Prob p; p.draw( c ); long ea = 0 , eb = 0; G ga{ p , &c , &ea } , gb{ p , &c , &eb };
    for( auto &v : x ) v = (W)c.real( -1.5 , 1.5 );
    T t0 = (T)( c.chance( 300 ) ? 0 : c.real( -3 , 3 ) ); double dir = c.chance( 350 ) ? -1 : 1;
    T dt = (T)( dir * c.real( 0.01 , 0.5 ) ) , t1 = t0 + (T)( dir * c.real( 0 , 3 ) );
    if( c.chance( 50 ) ) t1 = t0;
    long ca = 0 , cb = 0 , lim = c.chance( 200 ) ? (long)c.draw( 6 ) : -1;
    std::vector< double > ha , hb; X xa = x , xb = x; int thrown_a = 0 , thrown_b = 0; size_t ra = 0 , rb = 0;
    int form = (int)c.draw( 9 ); bool seen = form < 6;
    c.note( "integrate form %d, %s: t0 %.17g t1 %.17g dt %.17g observer throws at %ld" , form , types , (double)t0 , (double)t1 , (double)dt , lim );
    static const char *names[] = { "integrate" , "integrate<Value>" , "integrate, references" , "integrate<Value>, references" , "integrate, function pointer" , "integrate<Value>, function pointer" , "integrate, no observer" , "integrate<Value>, no observer" , "integrate, null_observer" };
    c.cover( names[ form ] ); c.cover( types );
    Rec o{ &ha , &ca , lim }; fp_g = &ga;
    try
    {
        switch( form )
        {
        case 0 : ra = integrate( ga , xa , t0 , t1 , dt , o ); break;
        case 1 : ra = integrate< W >( ga , xa , t0 , t1 , dt , o ); break;
        case 2 : ra = integrate( std::ref( ga ) , xa , t0 , t1 , dt , boost::ref( o ) ); break;
        case 3 : ra = integrate< W >( boost::ref( ga ) , xa , t0 , t1 , dt , std::ref( o ) ); break;
        case 4 : ra = integrate( &fp_rhs< X > , xa , t0 , t1 , dt , o ); break;
        case 5 : ra = integrate< W >( &fp_rhs< X > , xa , t0 , t1 , dt , o ); break;
        case 6 : ra = integrate( ga , xa , t0 , t1 , dt ); break;
        case 7 : ra = integrate< W >( ga , xa , t0 , t1 , dt ); break;
        default : ra = integrate( ga , xa , t0 , t1 , dt , null_observer() ); break;
        }
    }
    catch( ObsFault & ) { thrown_a = 1; c.fault( "observer-throws" ); } catch( odeint_error & ) { thrown_a = 2; }
    try
    {
        typedef runge_kutta_dopri5< X , W , X , T > S; typedef controlled_runge_kutta< S > C;
        C s( typename C::error_checker_type( (W)1e-6 , (W)1e-6 ) , typename C::step_adjuster_type() , S() );
        if( seen ) rb = integrate_adaptive( s , gb , xb , t0 , t1 , dt , Rec{ &hb , &cb , lim } ); else rb = integrate_adaptive( s , gb , xb , t0 , t1 , dt );
    }
    catch( ObsFault & ) { thrown_b = 1; } catch( odeint_error & ) { thrown_b = 2; }
    c.logvec( "h" , ha ); c.logvec( "x" , flat( xa ) );
    #define SAME( cond , what ) if( !( cond ) ) c.fail( "integrate" , "%s (%s): %s not as by integrate_adaptive with the controlled Dormand-Prince stepper and the standard tolerances" , names[ form ] , types , what )
    SAME( thrown_a == thrown_b , "what was thrown is" ); SAME( ha == hb , "the observations are" ); SAME( flat( xa ) == flat( xb ) , "the final state is" );
    SAME( ra == rb , "the number of steps is" ); SAME( ea == eb , "the number of right-hand side evaluations is" );
    #undef SAME
    if( ea > 10 ) c.nontrivial();
    c.elapse( t1 - t0 );
}
SIM_SCENARIO( P22 , integrate , 1 )
{
    switch( c.draw( 4 ) )
    {
    case 0 : simple< double , std::vector< double > , double >( c , "vector<double>" , std::vector< double >( 1 + c.draw( 4 ) ) ); break;
    case 1 : simple< double , boost::array< double , 3 > , double >( c , "array<double,3>" , boost::array< double , 3 >() ); break;
    case 2 : simple< float , std::vector< float > , double >( c , "vector<float>" , std::vector< float >( 1 + c.draw( 4 ) ) ); break;
    default : simple< float , std::vector< float > , float >( c , "vector<float>, time float" , std::vector< float >( 1 + c.draw( 4 ) ) ); break;
    }
}
} // namespace
