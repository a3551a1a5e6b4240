// P15 / P16: histories of single steps on one stepper object, through every overload.
// P15 oracle: a fresh stepper called through the plain overload.  P16 oracle: the published method.
#include "mach.hpp"
#include <utility>
using namespace mach;
using namespace boost::numeric::odeint;

namespace {
typedef range_algebra RA; typedef default_operations DO;
typedef std::vector< double >::iterator It;

struct Io
{
    Env *e; V x , err , dxdt , out , dxdt_out; double t , dt; int kind , pass; bool has_err = false , has_dout = false;
    std::vector< double > guard; bool range = false;
};

// calls f with the system passed by value, std::ref or boost::ref
template< class F > void with_sys( Io &io , F f )
{
    Sys s{ io.e };
    switch( io.pass ) { case 0: f( s ); break; case 1: f( std::ref( s ) ); break; default: f( boost::ref( s ) ); break; }
}
static const double GUARD = 123456.75;
static void to_range( Io &io ) { io.range = true; io.guard.assign( io.x.size() + 4 , GUARD ); std::copy( io.x.begin() , io.x.end() , io.guard.begin() + 2 ); }
static void from_range( Io &io ) { std::copy( io.guard.begin() + 2 , io.guard.end() - 2 , io.out.begin() ); }
static It rb( Io &io ) { return io.guard.begin() + 2; }
static It re( Io &io ) { return io.guard.end() - 2; }

// kinds: 0 in place, 1 in place on a range, 2 in place with derivative, 3 out of place, 4 out of place with derivative,
//        5..9 the same with error estimate; 10 out of place into a range
struct CallBase { template< class S > static void reset( S & ) { } enum { fsal = 0 , err = 0 }; };
struct CallPlain : CallBase
{
    template< class S > static void go( S &s , Io &io )
    {
        V x = io.x;
        switch( io.kind )
        {
        case 0: with_sys( io , [&]( auto f ) { s.do_step( f , x , io.t , io.dt ); } ); io.out = x; break;
        case 1: to_range( io ); with_sys( io , [&]( auto f ) { s.do_step( f , boost::make_iterator_range( rb( io ) , re( io ) ) , io.t , io.dt ); } ); from_range( io ); break;
        case 2: with_sys( io , [&]( auto f ) { s.do_step( f , x , io.dxdt , io.t , io.dt ); } ); io.out = x; break;
        case 3: with_sys( io , [&]( auto f ) { s.do_step( f , x , io.t , io.out , io.dt ); } ); break;
        default: with_sys( io , [&]( auto f ) { s.do_step( f , x , io.dxdt , io.t , io.out , io.dt ); } ); break;
        }
        if( io.kind >= 3 && ref::maxdiff( x , io.x ) != 0 ) io.e->c.fail( "input-modified" , "an out-of-place step changed its input state" );
    }
};
struct CallErr : CallPlain
{
    enum { err = 1 };
    template< class S > static void go( S &s , Io &io )
    {
        if( io.kind < 5 ) { CallPlain::go( s , io ); return; }
        V x = io.x; io.has_err = true;
        switch( io.kind )
        {
        case 5: with_sys( io , [&]( auto f ) { s.do_step( f , x , io.t , io.dt , io.err ); } ); io.out = x; break;
        case 6: to_range( io ); with_sys( io , [&]( auto f ) { s.do_step( f , std::make_pair( rb( io ) , re( io ) ) , io.t , io.dt , io.err ); } ); from_range( io ); break;
        case 7: with_sys( io , [&]( auto f ) { s.do_step( f , x , io.dxdt , io.t , io.dt , io.err ); } ); io.out = x; break;
        case 8: with_sys( io , [&]( auto f ) { s.do_step( f , x , io.t , io.out , io.dt , io.err ); } ); break;
        default: with_sys( io , [&]( auto f ) { s.do_step( f , x , io.dxdt , io.t , io.out , io.dt , io.err ); } ); break;
        }
        if( io.kind >= 8 && ref::maxdiff( x , io.x ) != 0 ) io.e->c.fail( "input-modified" , "an out-of-place step changed its input state" );
    }
};
struct CallFsal : CallBase
{
    enum { err = 1 , fsal = 1 };
    template< class S > static void reset( S &s ) { s.reset(); }
    template< class S > static void go( S &s , Io &io )
    {
        V x = io.x; V d = io.dxdt; io.has_err = io.kind >= 5;
        switch( io.kind )
        {
        case 0: with_sys( io , [&]( auto f ) { s.do_step( f , x , io.t , io.dt ); } ); io.out = x; break;
        case 1: to_range( io ); with_sys( io , [&]( auto f ) { s.do_step( f , boost::make_iterator_range( rb( io ) , re( io ) ) , io.t , io.dt ); } ); from_range( io ); break;
        case 2: with_sys( io , [&]( auto f ) { s.do_step( f , x , d , io.t , io.dt ); } ); io.out = x; io.dxdt_out = d; io.has_dout = true; break;
        case 3: with_sys( io , [&]( auto f ) { s.do_step( f , x , io.t , io.out , io.dt ); } ); break;
        case 4: with_sys( io , [&]( auto f ) { s.do_step( f , x , d , io.t , io.out , io.dxdt_out , io.dt ); } ); io.has_dout = true; break;
        case 5: with_sys( io , [&]( auto f ) { s.do_step( f , x , io.t , io.dt , io.err ); } ); io.out = x; break;
        case 6: to_range( io ); with_sys( io , [&]( auto f ) { s.do_step( f , std::make_pair( rb( io ) , re( io ) ) , io.t , io.dt , io.err ); } ); from_range( io ); break;
        case 7: with_sys( io , [&]( auto f ) { s.do_step( f , x , d , io.t , io.dt , io.err ); } ); io.out = x; io.dxdt_out = d; io.has_dout = true; break;
        case 8: with_sys( io , [&]( auto f ) { s.do_step( f , x , io.t , io.out , io.dt , io.err ); } ); break;
        default: with_sys( io , [&]( auto f ) { s.do_step( f , x , d , io.t , io.out , io.dxdt_out , io.dt , io.err ); } ); io.has_dout = true; break;
        }
        if( ( io.kind == 3 || io.kind == 4 || io.kind >= 8 ) && ref::maxdiff( x , io.x ) != 0 ) io.e->c.fail( "input-modified" , "an out-of-place step changed its input state" );
        if( ( io.kind == 4 || io.kind == 9 ) && ref::maxdiff( d , io.dxdt ) != 0 ) io.e->c.fail( "input-modified" , "an out-of-place step changed the derivative passed in" );
    }
};

struct Model { int order; std::function< ref::RkResult ( const ref::F & , const V & , double , double , int ) > step; };
struct Item
{
    const char *name; int kinds; bool fsal; int order , err_order , resizes; int param; bool generic;
    std::function< std::shared_ptr< void > ( Ctx & , int & ) > make;         // parameter (number of substeps) returned
    std::function< std::shared_ptr< void > ( int ) > make_fresh;
    std::function< void ( void * , Io & ) > go;
    std::function< void ( void * ) > reset;
    std::function< int ( void * ) > get_order;
    std::function< ref::RkResult ( const ref::F & , const V & , double , double , int ) > model;
};
std::vector< Item > &items() { static std::vector< Item > v; return v; }

template< class S , class C , class Mk > void add( const char *name , int order , int resizes , Mk mk , int param , std::function< ref::RkResult ( const ref::F & , const V & , double , double , int ) > model )
{
    Item i; i.name = name; i.kinds = C::err ? 10 : 5; i.fsal = C::fsal; i.order = order; i.resizes = resizes; i.param = param; i.generic = false;
    i.make = [mk,param]( Ctx &c , int &q ) { q = param ? 1 + (int)c.draw( param ) : 0; return std::shared_ptr< void >( std::shared_ptr< S >( mk( q ) ) ); };
    i.make_fresh = [mk]( int q ) { return std::shared_ptr< void >( std::shared_ptr< S >( mk( q ) ) ); };
    i.go = []( void *s , Io &io ) { C::go( *static_cast< S * >( s ) , io ); };
    i.reset = []( void *s ) { C::reset( *static_cast< S * >( s ) ); };
    i.get_order = []( void *s ) { return (int)static_cast< S * >( s )->order(); };
    i.model = model;
    items().push_back( i );
}
template< class S , class C > void add_rk( const char *name , int order , int resizes , ref::Tableau T )
{
    add< S , C >( name , order , resizes , []( int ) { return new S; } , 0 , [T]( const ref::F &f , const V &x , double t , double dt , int ) { return ref::rk_step( T , f , x , t , dt ); } );
}
struct heun3 : explicit_generic_rk< 3 , 3 , V >
{
    typedef explicit_generic_rk< 3 , 3 , V > B;
    static boost::array< double , 1 > a1() { boost::array< double , 1 > r = {{ 1. / 3 }}; return r; }
    static boost::array< double , 2 > a2() { boost::array< double , 2 > r = {{ 0 , 2. / 3 }}; return r; }
    static boost::array< double , 3 > b() { boost::array< double , 3 > r = {{ 0.25 , 0 , 0.75 }}; return r; }
    static boost::array< double , 3 > cc() { boost::array< double , 3 > r = {{ 0 , 1. / 3 , 2. / 3 }}; return r; }
    heun3() : B( boost::fusion::make_vector( a1() , a2() ) , b() , cc() ) { }
};
struct bs32 : explicit_error_generic_rk< 4 , 3 , 3 , 2 , V >
{
    typedef explicit_error_generic_rk< 4 , 3 , 3 , 2 , V > B;
    static boost::array< double , 1 > a1() { boost::array< double , 1 > r = {{ 0.5 }}; return r; }
    static boost::array< double , 2 > a2() { boost::array< double , 2 > r = {{ 0 , 0.75 }}; return r; }
    static boost::array< double , 3 > a3() { boost::array< double , 3 > r = {{ 2. / 9 , 1. / 3 , 4. / 9 }}; return r; }
    static boost::array< double , 4 > b() { boost::array< double , 4 > r = {{ 2. / 9 , 1. / 3 , 4. / 9 , 0 }}; return r; }
    static boost::array< double , 4 > b2() { boost::array< double , 4 > r = {{ 2. / 9 - 7. / 24 , 1. / 3 - 0.25 , 4. / 9 - 1. / 3 , -0.125 }}; return r; }
    static boost::array< double , 4 > cc() { boost::array< double , 4 > r = {{ 0 , 0.5 , 0.75 , 1 }}; return r; }
    bs32() : B( boost::fusion::make_vector( a1() , a2() , a3() ) , b() , b2() , cc() ) { }
};
// the generic steppers with arbitrary coefficients and every number of stages they are provided for; the coefficients are made
// from the parameter q of the item (rows of any sign, the nodes need not be the row sums)
static double coef( int q , int i , int j )
{
    unsigned long long z = ( 1000003ull * q + 131 * i + j + 17 ) * 0x9e3779b97f4a7c15ull;
    z ^= z >> 30; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 27; z *= 0x94d049bb133111ebull; z ^= z >> 31;
    return z % 5 ? ( z >> 12 ) / 4503599627370496.0 * 2 - 1 : 0.0;
}
template< int N > ref::Tableau gen_tableau( int q , bool err )
{
    ref::Tableau T; T.s = N; T.a.resize( N ); T.b.resize( N ); T.c.assign( N , 0.0 );
    for( int i = 0 ; i < N ; ++i )
    {
        T.a[i].resize( i );
        for( int j = 0 ; j < i ; ++j ) T.a[i][j] = 2 * coef( q , i , j ) / N;
        T.b[i] = 2 * coef( q , 50 , i ) / N; if( i ) T.c[i] = coef( q , 51 , i );
        if( err ) T.e.push_back( 2 * coef( q , 52 , i ) / N );
    }
    return T;
}
template< class X , int M > boost::array< X , M > row( const ref::Tableau &T ) { boost::array< X , M > r; std::copy( T.a[M].begin() , T.a[M].end() , r.begin() ); return r; }
template< class X , class A , std::size_t... I > A fill_a( const ref::Tableau &T , std::index_sequence< I... > ) { return A( row< X , I + 1 >( T )... ); }
template< int N , class C > C fill_1( const ref::V &v ) { C c; std::copy( v.begin() , v.end() , c.begin() ); return c; }
template< class B , int N > B *new_gen( int q , const boost::mpl::false_ & )
{
    ref::Tableau T = gen_tableau< N >( q , false );
    typename B::coef_a_type a = fill_a< typename B::value_type , typename B::coef_a_type >( T , std::make_index_sequence< N - 1 >() );
    return new B( a , fill_1< N , typename B::coef_b_type >( T.b ) , fill_1< N , typename B::coef_c_type >( T.c ) );
}
template< class B , int N > B *new_gen( int q , const boost::mpl::true_ & )
{
    ref::Tableau T = gen_tableau< N >( q , true );
    typename B::coef_a_type a = fill_a< typename B::value_type , typename B::coef_a_type >( T , std::make_index_sequence< N - 1 >() );
    return new B( a , fill_1< N , typename B::coef_b_type >( T.b ) , fill_1< N , typename B::coef_b_type >( T.e ) , fill_1< N , typename B::coef_c_type >( T.c ) );
}
struct CallGen : CallBase
{
    template< class S > static void go( S &s , Io &io )
    {
        V x = io.x; Sys f{ io.e };
        if( io.kind & 1 ) { s.do_step( f , x , io.t , io.dt ); io.out = x; }
        else s.do_step( f , x , io.t , io.out , io.dt );
    }
};
struct CallGenErr : CallBase
{
    enum { err = 1 };
    template< class S > static void go( S &s , Io &io )
    {
        V x = io.x; Sys f{ io.e };
        if( io.kind < 5 ) { CallGen::go( s , io ); return; }
        io.has_err = true;
        if( io.kind & 1 ) { s.do_step( f , x , io.t , io.dt , io.err ); io.out = x; }
        else s.do_step( f , x , io.t , io.out , io.dt , io.err );
    }
};
template< int N > void add_gen( const char *name )
{
    typedef explicit_generic_rk< N , 2 , V > S;
    add< S , CallGen >( name , 2 , 0 , []( int q ) { return new_gen< S , N >( q , boost::mpl::false_() ); } , 1000 ,
        []( const ref::F &f , const V &x , double t , double dt , int q ) { return ref::rk_step( gen_tableau< N >( q , false ) , f , x , t , dt ); } );
    items().back().generic = true;
}
template< int N , class X > void add_gen_err( const char *name )
{
    typedef explicit_error_generic_rk< N , 3 , 3 , 2 , V , X , V , double > S;
    add< S , CallGenErr >( name , 3 , 0 , []( int q ) { return new_gen< S , N >( q , boost::mpl::true_() ); } , 1000 ,
        []( const ref::F &f , const V &x , double t , double dt , int q ) { return ref::rk_step( gen_tableau< N >( q , true ) , f , x , t , dt ); } );
    items().back().generic = true;
}
template< int O , class R > void add_ex( const char *name , int resizes )
{
    typedef extrapolation_stepper< O , V , double , V , double , RA , DO , R > S;
    add< S , CallErr >( name , O , resizes , []( int ) { return new S; } , 0 ,
        []( const ref::F &f , const V &x , double t , double dt , int ) {
            std::vector< int > n; for( int i = 0 ; i < O / 2 ; ++i ) n.push_back( 2 * ( i + 1 ) );
            ref::ExResult r = ref::extrapolate( f , x , t , dt , n ); ref::RkResult q; q.x = r.x; q.err = r.err; return q; } );
}
struct InitItems
{
    InitItems()
    {
        typedef initially_resizer IR; typedef always_resizer AR;
#define T8( cls , R ) cls< V , double , V , double , RA , DO , R >
        add_rk< T8( euler , IR ) , CallPlain >( "euler" , 1 , 0 , ref::t_euler() );
        add_rk< T8( runge_kutta4 , IR ) , CallPlain >( "runge_kutta4" , 4 , 0 , ref::t_rk4() );
        add_rk< T8( runge_kutta4 , AR ) , CallPlain >( "runge_kutta4/always_resizer" , 4 , 1 , ref::t_rk4() );
        add_rk< T8( runge_kutta4_classic , AR ) , CallPlain >( "runge_kutta4_classic/always_resizer" , 4 , 1 , ref::t_rk4() );
        add_rk< T8( runge_kutta4_classic , IR ) , CallPlain >( "runge_kutta4_classic" , 4 , 0 , ref::t_rk4() );
        add_rk< T8( runge_kutta_cash_karp54 , IR ) , CallErr >( "runge_kutta_cash_karp54" , 5 , 0 , ref::t_ck54() );
        add_rk< T8( runge_kutta_cash_karp54_classic , AR ) , CallErr >( "runge_kutta_cash_karp54_classic/always_resizer" , 5 , 1 , ref::t_ck54() );
        add_rk< T8( runge_kutta_cash_karp54_classic , IR ) , CallErr >( "runge_kutta_cash_karp54_classic" , 5 , 0 , ref::t_ck54() );
        add_rk< T8( runge_kutta_fehlberg78 , IR ) , CallErr >( "runge_kutta_fehlberg78" , 8 , 0 , ref::t_f78() );
        add_rk< T8( runge_kutta_dopri5 , IR ) , CallFsal >( "runge_kutta_dopri5" , 5 , 0 , ref::t_dp5() );
        add_rk< T8( runge_kutta_dopri5 , AR ) , CallFsal >( "runge_kutta_dopri5/always_resizer" , 5 , 1 , ref::t_dp5() );
        add_rk< heun3 , CallPlain >( "explicit_generic_rk" , 3 , 0 , ref::t_heun3() );
        add_rk< bs32 , CallErr >( "explicit_error_generic_rk" , 3 , 0 , ref::t_bs32() );
        add_gen< 2 >( "explicit_generic_rk<2>" ); add_gen< 3 >( "explicit_generic_rk<3>" ); add_gen< 4 >( "explicit_generic_rk<4>" );
        add_gen< 5 >( "explicit_generic_rk<5>" ); add_gen< 6 >( "explicit_generic_rk<6>" ); add_gen< 7 >( "explicit_generic_rk<7>" );
        add_gen< 8 >( "explicit_generic_rk<8>" ); add_gen< 9 >( "explicit_generic_rk<9>" ); add_gen< 10 >( "explicit_generic_rk<10>" );
        add_gen< 11 >( "explicit_generic_rk<11>" ); add_gen< 12 >( "explicit_generic_rk<12>" ); add_gen< 13 >( "explicit_generic_rk<13>" );
        add_gen_err< 2 , double >( "explicit_error_generic_rk<2>" ); add_gen_err< 3 , double >( "explicit_error_generic_rk<3>" ); add_gen_err< 4 , double >( "explicit_error_generic_rk<4>" );
        add_gen_err< 5 , double >( "explicit_error_generic_rk<5>" ); add_gen_err< 6 , double >( "explicit_error_generic_rk<6>" ); add_gen_err< 13 , double >( "explicit_error_generic_rk<13>" );
        add_gen_err< 4 , long double >( "explicit_error_generic_rk<4>/long double coefficients" ); add_gen_err< 5 , long double >( "explicit_error_generic_rk<5>/long double coefficients" );
        add_ex< 4 , IR >( "extrapolation_stepper<4>" , 0 );
        add_ex< 6 , AR >( "extrapolation_stepper<6>/always_resizer" , 1 );
        add_ex< 8 , IR >( "extrapolation_stepper<8>" , 0 );
        auto mid = []( const ref::F &f , const V &x , double t , double dt , int q ) { ref::RkResult r; r.x = ref::midpoint( f , x , t , dt , q ); return r; };
        typedef T8( modified_midpoint , IR ) M1; typedef T8( modified_midpoint , AR ) M2;
        add< M1 , CallPlain >( "modified_midpoint" , 2 , 0 , []( int q ) { return new M1( q ); } , 12 , mid );
        add< M2 , CallPlain >( "modified_midpoint/always_resizer" , 2 , 1 , []( int q ) { M2 *m = new M2; m->set_steps( q ); return m; } , 12 , mid );
    }
} init_items;

void clean( Io &io , size_t n )
{
    io.out.assign( n , -9.25 ); io.err.assign( n , -9.25 ); io.dxdt_out.assign( n , -9.25 ); io.has_err = io.has_dout = io.range = false;
}
static double scale( const V &a , const V &b ) { return 1 + std::max( ref::maxabs( a ) , ref::maxabs( b ) ); }

void history( Ctx &c , bool against_method )
{
    bool gen = c.chance( 200 );
    std::vector< size_t > pool; for( size_t i = 0 ; i < items().size() ; ++i ) if( items()[i].generic == gen ) pool.push_back( i );
    const Item &it = items()[ pool[ c.draw( pool.size() ) ] ];
    c.note( "stepper %s" , it.name ); c.cover( it.name );
    Env e( c ) , e2( c );
    e.p.draw( c ); e2.p = e.p;
    int q; std::shared_ptr< void > s = it.make( c , q );
    if( it.get_order( s.get() ) != it.order ) c.fail( "order" , "%s reports order %d, the method has order %d" , it.name , it.get_order( s.get() ) , it.order );
    size_t n = 1 + c.draw( 6 ); if( c.chance( 80 ) ) n = 6 + c.draw( 30 );
    V x( n ); for( double &v : x ) v = c.real( -2 , 2 );
    double t = c.real( -5 , 5 );
    int steps = 2 + (int)c.draw( 10 );
    bool pure = c.chance( 300 ); int pure_kind = (int)c.draw( it.kinds );      // always the same overload
    for( int i = 0 ; i < steps ; ++i )
    {
        Io a; a.e = &e; a.kind = pure ? pure_kind : (int)c.draw( it.kinds ); a.pass = (int)c.draw( 3 );
        a.dt = c.real( 0.01 , 0.6 ) * ( c.chance( 300 ) ? -1 : 1 );
        if( c.chance( 100 ) ) a.dt = 0;
        if( i && c.chance( 250 ) )
        {   // leave the trajectory: a stepper with memory must be told
            bool other_size = false;
            if( it.resizes && c.chance( 500 ) ) { size_t m = 1 + c.draw( 12 ); other_size = m != n; n = m; x.resize( n ); c.fault( "size-change" ); }
            for( double &v : x ) v = c.real( -2 , 2 );
            t = c.real( -5 , 5 );
            if( c.chance( 300 ) ) { e.p.draw( c ); e2.p = e.p; c.fault( "system-changed" ); }
            if( !( other_size && c.chance( 500 ) ) ) it.reset( s.get() );       // (a change of size is noticed)
            c.fault( "jump" );
        }
        else if( c.chance( 100 ) ) it.reset( s.get() );
        e.n = e2.n = n; a.x = x; a.t = t; clean( a , n );
        ref::F f = ref_rhs( e.p );
        a.dxdt.assign( n , 0 ); f( x , a.dxdt , t );
        V dx = a.dxdt;
        it.go( s.get() , a );
        c.log( "step" , t , a.dt , a.kind ); c.logvec( "x" , a.out ); if( a.has_err ) c.logvec( "err" , a.err );
        if( a.range )
            for( size_t j = 0 ; j < 2 ; ++j ) if( a.guard[j] != GUARD || a.guard[a.guard.size() - 1 - j] != GUARD ) c.fail( "outside-range" , "%s wrote outside the range it was given" , it.name );
        if( ref::maxdiff( dx , a.dxdt ) != 0 ) c.fail( "input-modified" , "%s changed the derivative passed in" , it.name );
        V rx , rerr; const char *what; double sc = 0;
        if( against_method )
        {
            ref::RkResult r = it.model( f , x , t , a.dt , q ); rx = r.x; rerr = r.err; what = "the published method";
            if( gen ) for( const V &k : r.k ) sc = std::max( sc , std::fabs( a.dt ) * ref::maxabs( k ) );
        }
        else
        {
            std::shared_ptr< void > fr = it.make_fresh( q );
            Io b; b.e = &e2; b.kind = 0; b.pass = 0; b.x = x; b.t = t; b.dt = a.dt; b.dxdt = dx; clean( b , n );
            it.go( fr.get() , b ); rx = b.out; what = "do_step(sys,x,t,dt) of a fresh stepper";
            if( a.has_err ) { std::shared_ptr< void > f2 = it.make_fresh( q ); Io d; d.e = &e2; d.kind = 5; d.pass = 0; d.x = x; d.t = t; d.dt = a.dt; d.dxdt = dx; clean( d , n ); it.go( f2.get() , d ); rerr = d.err; }
        }
        sc += scale( rx , x );
        if( !( ref::maxdiff( a.out , rx ) <= 2e-12 * sc ) )
            c.fail( "step-result" , "%s: step %d (overload %d, dt=%g, n=%zu) gives x[0]=%.17g, %s %.17g (difference %g)" , it.name , i , a.kind , a.dt , n , a.out[0] , what , rx[0] , ref::maxdiff( a.out , rx ) );
        if( a.has_err )
        {
            double d1 = ref::maxdiff( a.err , rerr );
            V neg = rerr; for( double &v : neg ) v = -v;
            double d2 = against_method ? ref::maxdiff( a.err , neg ) : d1;      // the sign of an error estimate is a convention
            if( !( std::min( d1 , d2 ) <= 2e-12 * sc ) )
                c.fail( "error-estimate" , "%s: step %d (overload %d, dt=%g) estimates the error %.17g, %s %.17g" , it.name , i , a.kind , a.dt , a.err[0] , against_method ? "the published method" : "another overload" , rerr[0] );
        }
        if( a.has_dout )
        {
            V d( n ); f( a.out , d , t + a.dt );
            if( !( ref::maxdiff( a.dxdt_out , d ) <= 2e-12 * ( 1 + ref::maxabs( d ) ) ) )
                c.fail( "derivative-out" , "%s: step %d (overload %d) returns a derivative that is not the derivative at the new point" , it.name , i , a.kind );
        }
        if( i ) c.nontrivial();
        c.elapse( a.dt );
        x = a.out; t += a.dt;
        if( ref::maxabs( x ) > 50 ) break;
    }
}
}
SIM_SCENARIO( P15 , overloads , 1 ) { history( c , false ); }
SIM_SCENARIO( P16 , methods , 1 ) { history( c , true ); }
