// P21: the same integration in any container, algebra and number type.
//
// A Runner owns one real stepper and one state of some container type.  A variant's Runner is
// driven in lock step with a Runner of the same stepper on std::vector with the range algebra,
// through the same history of steps, jumps, resets, changes of size, copies and exceptions.
#ifndef VERIF_CONT_HPP
#define VERIF_CONT_HPP
#include "core.hpp"
#include "ref.hpp"
#include <boost/numeric/odeint.hpp>
#include <boost/range.hpp>
#include <memory>
#include <complex>

namespace cont {
namespace ode = boost::numeric::odeint;
using sim::Ctx;
typedef std::vector< double > V;

enum Elem { DOUBLE , FLOAT , LDOUBLE , COMPLEX , UNITS };
inline int width( Elem e ) { return e == COMPLEX ? 2 : 1; }

// the problem: on the flattened real components
struct World
{
    Ctx &c; double a[12] , b[12] , w[12] , d[12]; long calls = 0 , throw_at = -1; size_t n = 0;
    explicit World( Ctx &ctx ) : c( ctx ) { for( int i = 0 ; i < 12 ; ++i ) { a[i] = c.real( -1 , 1 ); b[i] = c.real( -1 , 1 ); w[i] = c.real( 0.2 , 2 ); d[i] = c.real( -0.8 , 0.3 ); } }
    void f( const V &x , V &o , double t ) const { size_t k = x.size(); o.resize( k ); for( size_t i = 0 ; i < k ; ++i ) o[i] = a[i % 12] * std::sin( x[( i + 1 ) % k] ) + b[i % 12] * std::cos( w[i % 12] * t + 0.3 * x[i] ) + d[i % 12] * x[i]; }
    void enter( size_t xs , size_t ds )
    {
        sim::AllocPause ap; c.tick();
        if( xs != n || ds != n ) c.fail( "rhs-size" , "right-hand side called with %zu components and a derivative of %zu while the system has %zu" , xs , ds , n );
        if( calls++ == throw_at ) { c.fault( "rhs-throws" ); throw sim::SimFault( 3 ); }
    }
};

// the layout states of more than one dimension are to have: shape (by its lowest bit) and index bases
inline int &layout() { static int l = 0; return l; }
// ---------------------------------------------------------------- containers: flatten, fill, size
template< class C , class = void > struct Rep     // ranges
{
    static V get( const C &x ) { V v; for( auto i = boost::begin( x ) ; i != boost::end( x ) ; ++i ) add( v , *i ); return v; }
    static void put( C &x , const V &v ) { size_t k = 0; for( auto i = boost::begin( x ) ; i != boost::end( x ) ; ++i ) set( *i , v , k ); }
    static void init( C &x , size_t n ) { init_i( x , n , 0 ); }
    template< class X > static auto init_i( X &x , size_t n , int ) -> decltype( x.resize( n ) , void() ) { x.resize( n ); }
    template< class X > static void init_i( X & , size_t , long ) { }
    static void kill( C & ) { }
    template< class E > static void add( V &v , const E &e ) { v.push_back( (double)e ); }
    template< class E > static void add( V &v , const std::complex< E > &e ) { v.push_back( e.real() ); v.push_back( e.imag() ); }
    template< class E > static void set( E &e , const V &v , size_t &k ) { e = (E)v.at( k++ ); }
    template< class E > static void set( std::complex< E > &e , const V &v , size_t &k ) { double r = v.at( k++ ); e = std::complex< E >( r , v.at( k++ ) ); }
};
template< class C > void dup( C &a , const C &b ) { a = b; }
template< class E > void dup( E *&a , E *const &b ) { Rep< E * >::put( a , Rep< E * >::get( b ) ); }
template< class C > auto laid( const C &x , int ) -> decltype( Rep< C >::laid( x ) ) { return Rep< C >::laid( x ); }
template< class C > bool laid( const C & , long ) { return true; }
template< class C > size_t extent( const C &x ) { return Rep< C >::get( x ).size(); }

template< class T > struct Tm { static T mk( double v ) { return T( v ); } static double val( const T &t ) { return (double)t; } };

struct Sys
{
    World *w;
    template< class X , class D , class T > void operator()( const X &x , D &d , T t ) const
    {
        V vx = Rep< X >::get( x ) , vd; w->enter( vx.size() , extent( d ) );
        if( !laid( x , 0 ) || !laid( d , 0 ) ) w->c.fail( "rhs-layout" , "right-hand side called with %s whose shape or index bases are not those of the state" , laid( x , 0 ) ? "a derivative" : "a state" );
        w->f( vx , vd , Tm< T >::val( t ) ); Rep< D >::put( d , vd );
    }
};

template< class C > struct Holder
{
    C v;
    explicit Holder( size_t n ) { Rep< C >::init( v , n ); }
    ~Holder() { Rep< C >::kill( v ); }
    Holder( const Holder & ) = delete; Holder &operator=( const Holder & ) = delete;
};

// ---------------------------------------------------------------- runners
struct Runner
{
    virtual ~Runner() { }
    virtual void set( const V &x , double t , double dt ) = 0;       // also tells the stepper to start anew
    virtual void resize( size_t n ) = 0;                             // elements
    virtual bool step( World &w , int form ) = 0;
    virtual V state() = 0; virtual double time() = 0; virtual double dt() = 0;
    virtual bool eval( double , V & ) { return false; }
    virtual Runner *copy() = 0;                                      // copy constructed stepper, own state
    virtual void assign( Runner & ) = 0;
    virtual void run( World &w , int driver , double len , std::vector< V > &obs , std::vector< double > &times ) = 0;
};

template< class T , class X > struct Observe
{
    std::vector< V > *o; std::vector< double > *t;
    void operator()( const X &x , T tt ) const { o->push_back( Rep< X >::get( x ) ); t->push_back( Tm< T >::val( tt ) ); }
};

template< class S , class C , class T , class Mk > struct RunnerT : Runner
{
    typedef typename S::stepper_category Cat;
    S s; std::unique_ptr< Holder< C > > x , y; T t , h; size_t n; bool running = false;
    explicit RunnerT( size_t n_ ) : s( Mk::make() ) , x( new Holder< C >( n_ ) ) , y( new Holder< C >( n_ ) ) , t() , h() , n( n_ ) { }
    RunnerT( const RunnerT &o , int ) : s( o.s ) , x( new Holder< C >( o.n ) ) , y( new Holder< C >( o.n ) ) , t( o.t ) , h( o.h ) , n( o.n ) , running( o.running ) { dup( x->v , o.x->v ); }
    Runner *copy() { return new RunnerT( *this , 0 ); }
    void assign( Runner &r ) { RunnerT &o = static_cast< RunnerT & >( r ); s = o.s; dup( x->v , o.x->v ); t = o.t; h = o.h; running = o.running; }
    template< class Q > static auto do_reset( Q &q , int ) -> decltype( q.reset() , void() ) { q.reset(); }
    template< class Q > static void do_reset( Q & , long ) { }
    void set( const V &v , double tt , double hh ) { Rep< C >::put( x->v , v ); t = Tm< T >::mk( tt ); h = Tm< T >::mk( hh ); do_reset( s , 0 ); running = false; }
    void resize( size_t k ) { n = k; x.reset(); y.reset(); x.reset( new Holder< C >( k ) ); y.reset( new Holder< C >( k ) ); }
    bool step( World &w , int form ) { w.calls = 0; return go( w , form , Cat() ); }
    bool go( World &w , int form , ode::stepper_tag )
    {
        if( form % 2 == 0 ) s.do_step( Sys{ &w } , x->v , t , h );
        else { s.do_step( Sys{ &w } , x->v , t , y->v , h ); dup( x->v , y->v ); }
        t += h; return true;
    }
    bool go( World &w , int form , ode::error_stepper_tag )
    {
        if( form == 2 ) { s.do_step( Sys{ &w } , x->v , t , h , y->v ); t += h; return true; }
        return go( w , form , ode::stepper_tag() );
    }
    bool go( World &w , int form , ode::explicit_error_stepper_fsal_tag )
    {
        if( form == 2 ) { s.do_step( Sys{ &w } , x->v , t , h , y->v ); t += h; return true; }
        return go( w , form , ode::stepper_tag() );
    }
    bool go( World &w , int form , ode::controlled_stepper_tag ) { return form % 2 == 0 ? s.try_step( Sys{ &w } , x->v , t , h ) == ode::success : Mk::out( s , Sys{ &w } , x->v , t , y->v , h ); }
    bool go( World &w , int , ode::explicit_controlled_stepper_fsal_tag ) { return s.try_step( Sys{ &w } , x->v , t , h ) == ode::success; }
    bool go( World &w , int , ode::dense_output_stepper_tag )
    {
        if( !running ) { s.initialize( x->v , t , h ); running = true; }
        s.do_step( Sys{ &w } ); return true;
    }
    V state() { return st( Cat() ); }
    template< class Q > V st( Q ) { return Rep< C >::get( x->v ); }
    V st( ode::dense_output_stepper_tag ) { return running ? Rep< C >::get( s.current_state() ) : Rep< C >::get( x->v ); }
    double time() { return tm( Cat() ); }
    template< class Q > double tm( Q ) { return Tm< T >::val( t ); }
    double tm( ode::dense_output_stepper_tag ) { return running ? Tm< T >::val( s.current_time() ) : Tm< T >::val( t ); }
    double dt() { return stp( Cat() ); }
    template< class Q > double stp( Q ) { return Tm< T >::val( h ); }
    double stp( ode::dense_output_stepper_tag ) { return running ? Tm< T >::val( s.current_time_step() ) : Tm< T >::val( h ); }
    bool eval( double q , V &v ) { return ev( q , v , Cat() ); }
    template< class Q > bool ev( double , V & , Q ) { return false; }
    bool ev( double q , V &v , ode::dense_output_stepper_tag )
    {
        if( !running ) return false;
        double a = Tm< T >::val( s.previous_time() ) , b = Tm< T >::val( s.current_time() );
        s.calc_state( Tm< T >::mk( a + q * ( b - a ) ) , y->v ); v = Rep< C >::get( y->v ); return true;
    }
    template< class Ob > void drive( World &w , int driver , double len , T e , T dt , Ob ob , std::true_type )
    {
        std::vector< T > ts; for( int i = 0 ; i <= 4 ; ++i ) ts.push_back( Tm< T >::mk( Tm< T >::val( t ) + len * i / 4 ) );
        switch( driver )
        {
        case 0: ode::integrate_const( std::ref( s ) , Sys{ &w } , x->v , t , e , dt , ob ); break;
        case 1: ode::integrate_adaptive( std::ref( s ) , Sys{ &w } , x->v , t , e , dt , ob ); break;
        default: ode::integrate_times( std::ref( s ) , Sys{ &w } , x->v , ts.begin() , ts.end() , dt , ob ); break;
        }
    }
    template< class Ob > void drive( World &w , int , double , T e , T dt , Ob ob , std::false_type ) { ode::integrate_const( std::ref( s ) , Sys{ &w } , x->v , t , e , dt , ob ); }   // units: the other drivers do not compile
    void run( World &w , int driver , double len , std::vector< V > &o , std::vector< double > &times )
    {
        w.calls = 0; Observe< T , C > ob{ &o , &times }; T dt = h; T e = Tm< T >::mk( Tm< T >::val( t ) + len );
        drive( w , driver , len , e , dt , ob , std::is_arithmetic< T >() );
        t = e; do_reset( s , 0 ); running = false;
    }
};

// ---------------------------------------------------------------- the steppers
struct no_out { template< class S , class Y , class X , class T > static bool out( S &s , Y y , X &x , T &t , X & , T &h ) { return s.try_step( y , x , t , h ) == ode::success; } };
struct has_out { template< class S , class Y , class X , class T > static bool out( S &s , Y y , X &x , T &t , X &o , T &h ) { bool ok = s.try_step( y , x , t , o , h ) == ode::success; if( ok ) dup( x , o ); return ok; } };
template< class S > struct MkPlain : no_out { static S make() { return S(); } };
template< class St , class E , class R > struct Crk : no_out
{
    typedef typename St::value_type Val; typedef typename St::time_type T;
    typedef ode::default_error_checker< Val , typename St::algebra_type , typename St::operations_type > EC;
    typedef ode::default_step_adjuster< Val , T > SA;
    typedef ode::controlled_runge_kutta< St , EC , SA , R > type;
    static type make() { Val e = sizeof( Val ) == 4 ? Val( 1e-3 ) : Val( 1e-5 ); return type( EC( e , e ) , SA() ); }
};
template< class S , class Val > struct MkBs : has_out { static S make() { Val e = sizeof( Val ) == 4 ? Val( 1e-3 ) : Val( 1e-6 ); return S( e , e , Val( 1 ) , Val( 1 ) ); } };
template< class S > struct MkBsDense : no_out { typedef typename S::value_type Val; static S make() { Val e = sizeof( Val ) == 4 ? Val( 1e-3 ) : Val( 1e-6 ); return S( e , e ); } };
template< class S , class Inner > struct MkOver : no_out { static S make() { return S( Inner::make() ); } };
template< class St > struct MkEulerDense : no_out { typedef ode::dense_output_runge_kutta< St > S; static S make() { return S( St() ); } };
template< class S , class Val > struct MkCabm : has_out { static S make() { Val e = sizeof( Val ) == 4 ? Val( 1e-3 ) : Val( 1e-6 ); return S( typename S::step_adjuster_type( e , e , 1 ) ); } };

const int KINDS = 20;
inline const char *kind_name( int k )
{
    static const char *n[] = { "euler" , "runge_kutta4" , "runge_kutta4_classic" , "runge_kutta_cash_karp54" , "runge_kutta_cash_karp54_classic" , "runge_kutta_fehlberg78" , "runge_kutta_dopri5" , "modified_midpoint" , "extrapolation_stepper<6>" ,
        "adams_bashforth<4>" , "adams_bashforth_moulton<3>" , "adaptive_adams_bashforth_moulton<4>" , "controlled cash_karp54" , "controlled dopri5" , "controlled fehlberg78" , "bulirsch_stoer" , "dense dopri5" , "bulirsch_stoer_dense_out" , "dense euler" , "controlled_adams_bashforth_moulton<4>" };
    return n[k];
}
enum Norm { NO_NORM , WITH_NORM , NO_CABM , WITH_UNITS };     // NO_CABM: no controlled Adams (not for complex numbers)
template< class C , class Val , class T , class A , class O , class R , int N , class D = C > struct Make
{
    template< class S , class Mk > static Runner *r( size_t n ) { return new RunnerT< S , C , T , Mk >( n ); }
#define CONT_ST( cls ) ode::cls< C , Val , D , T , A , O , R >
    template< class S > static Runner *plain( size_t n ) { return r< S , MkPlain< S > >( n ); }
    static Runner *ctl( int , size_t , std::integral_constant< int , NO_NORM > ) { return 0; }
    static Runner *ctl( int kind , size_t n , std::integral_constant< int , WITH_NORM > )
    {
        typedef ode::adaptive_adams_bashforth_moulton< 4 , C , Val , D , T , A , O , R > AB; typedef ode::controlled_adams_bashforth_moulton< AB , ode::detail::pid_step_adjuster< C , Val , C , T , A , O , ode::detail::H211PI > , ode::default_order_adjuster< 4 , C , Val , A > , R > CAB;
        if( kind == 19 ) return r< CAB , MkCabm< CAB , Val > >( n );
        return ctl( kind , n , std::integral_constant< int , NO_CABM >() );
    }
    static Runner *ctl( int kind , size_t n , std::integral_constant< int , NO_CABM > )
    {
        typedef Crk< CONT_ST( runge_kutta_cash_karp54 ) , int , R > CK; typedef Crk< CONT_ST( runge_kutta_dopri5 ) , int , R > DP; typedef Crk< CONT_ST( runge_kutta_fehlberg78 ) , int , R > FB;
        typedef ode::bulirsch_stoer< C , Val , D , T , A , O , R > BS; typedef ode::bulirsch_stoer_dense_out< C , Val , D , T , A , O , R > BSD;
        typedef ode::dense_output_runge_kutta< typename DP::type > DD;
        switch( kind )
        {
        case 12: return r< typename CK::type , CK >( n );
        case 13: return r< typename DP::type , DP >( n );
        case 14: return r< typename FB::type , FB >( n );
        case 15: return r< BS , MkBs< BS , Val > >( n );
        case 16: return r< DD , MkOver< DD , DP > >( n );
        case 17: return r< BSD , MkBsDense< BSD > >( n );
        }
        return 0;
    }
    static Runner *ctl( int kind , size_t n , std::integral_constant< int , WITH_UNITS > )
    {
        typedef Crk< CONT_ST( runge_kutta_cash_karp54_classic ) , int , R > CK; typedef Crk< CONT_ST( runge_kutta_dopri5 ) , int , R > DP; typedef ode::bulirsch_stoer< C , Val , D , T , A , O , R > BS;
        typedef ode::dense_output_runge_kutta< typename DP::type > DD;
        switch( kind )
        {
        case 12: return r< typename CK::type , CK >( n );
        case 13: return r< typename DP::type , DP >( n );
        case 15: return r< BS , MkBs< BS , Val > >( n );
        case 16: return r< DD , MkOver< DD , DP > >( n );
        }
        return 0;
    }
    static Runner *go( int kind , size_t n )
    {
        if( kind == 18 ) { typedef MkEulerDense< CONT_ST( euler ) > M; return r< typename M::S , M >( n ); }
        if( kind < 5 || kind == 6 ) return simple( kind , n );
        if( kind < 12 ) return multi( kind , n , std::integral_constant< bool , N == WITH_UNITS >() );
        return ctl( kind , n , std::integral_constant< int , N >() );
    }
    static Runner *multi( int , size_t , std::true_type ) { return 0; }
    static Runner *multi( int kind , size_t n , std::false_type )
    {
        switch( kind )
        {
        case 5: return plain< CONT_ST( runge_kutta_fehlberg78 ) >( n );
        case 7: return plain< CONT_ST( modified_midpoint ) >( n );
        case 8: return plain< ode::extrapolation_stepper< 6 , C , Val , D , T , A , O , R > >( n );
        case 9: return plain< ode::adams_bashforth< 4 , C , Val , D , T , A , O , R > >( n );
        case 10: return plain< ode::adams_bashforth_moulton< 3 , C , Val , D , T , A , O , R > >( n );
        case 11: return plain< ode::adaptive_adams_bashforth_moulton< 4 , C , Val , D , T , A , O , R > >( n );
        }
        return 0;
    }
    static Runner *simple( int kind , size_t n )
    {
        switch( kind )
        {
        case 0: return plain< CONT_ST( euler ) >( n );
        case 1: return plain< CONT_ST( runge_kutta4 ) >( n );
        case 2: return plain< CONT_ST( runge_kutta4_classic ) >( n );
        case 3: return plain< CONT_ST( runge_kutta_cash_karp54 ) >( n );
        case 4: return plain< CONT_ST( runge_kutta_cash_karp54_classic ) >( n );
        case 6: return plain< CONT_ST( runge_kutta_dopri5 ) >( n );
        }
        return 0;
    }
};

typedef Runner *(*MakeFn)( int kind , size_t n );
struct Variant { const char *name; Elem elem; size_t fixed; bool resizes; MakeFn make; };     // fixed: number of elements, 0 any
std::vector< Variant > &variants();
struct Reg { Reg( const char *n , Elem e , size_t fixed , bool resizes , MakeFn f ) { variants().push_back( Variant{ n , e , fixed , resizes , f } ); } };
Runner *reference( Elem e , int kind , size_t n );

typedef ode::range_algebra RA; typedef ode::vector_space_algebra VA; typedef ode::default_operations DO; typedef ode::initially_resizer IR; typedef ode::always_resizer AR;
#define CONT_CAT2( a , b ) a##b
#define CONT_CAT( a , b ) CONT_CAT2( a , b )
#define VARIANT( name , elem , fixed , resizes , ... ) static cont::Reg CONT_CAT( vreg_ , __COUNTER__ )( name , elem , fixed , resizes , &cont::Make< __VA_ARGS__ >::go )
} // namespace cont
#endif
