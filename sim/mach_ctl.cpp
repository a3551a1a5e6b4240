// controlled and dense-output machines
#include "mach.hpp"
namespace mach {
using namespace boost::numeric::odeint;
typedef range_algebra RA; typedef default_operations DO;

template< class S , class Make , int Resizes , int Order , bool Fsal > struct Ctl : MachineBase< Ctl< S , Make , Resizes , Order , Fsal > , S >
{
    Ctl() : MachineBase< Ctl , S >( Make::make() )
    {
        Traits &tr = this->tr;
        tr.controlled = true; tr.resizes = Resizes; tr.order = Order; tr.has_reset = true; tr.retry_ok = true; tr.fsal = tr.needs_contiguous = Fsal;
        tr.restarts_on_adjust = !is_bs( this->s.get() );
    }
    template< class ...A > static bool is_bs( const bulirsch_stoer< A... > * ) { return true; }
    static bool is_bs( ... ) { return false; }
    template< class T > static auto do_reset( T &s , int ) -> decltype( s.reset() ) { s.reset(); }
    template< class T > static void do_reset( T & , long ) { }
    void reset() { do_reset( *this->s , 0 ); }
    bool step( Env &e , V &x , double &t , double &dt ) { Guard g( e ); return this->s->try_step( Sys{ &e } , x , t , dt ) == success; }
    bool configure( double eps , double mx ) { this->s.reset( Make::make( eps , mx ) ); return true; }
};
template< class St , class Res > struct Crk
{
    typedef default_error_checker< double , RA , DO > EC;
    typedef controlled_runge_kutta< St , EC , default_step_adjuster< double , double > , Res > type;
    struct mk { static type *make( double eps = 1e-5 , double mx = 0 ) { return new type( EC( eps , eps ) , default_step_adjuster< double , double >( mx ) ); } };
};
typedef initially_resizer IR; typedef always_resizer AR; typedef never_resizer NR;
#define ST( cls , R ) cls< V , double , V , double , RA , DO , R >
typedef Crk< ST( runge_kutta_cash_karp54 , IR ) , IR > C1; typedef Ctl< C1::type , C1::mk , 0 , 5 , false > c1; MACHINE( c1 , "controlled cash_karp54" );
typedef Crk< ST( runge_kutta_cash_karp54 , AR ) , AR > C2; typedef Ctl< C2::type , C2::mk , 1 , 5 , false > c2; MACHINE( c2 , "controlled cash_karp54/always_resizer" );
typedef Crk< ST( runge_kutta_fehlberg78 , IR ) , IR > C3; typedef Ctl< C3::type , C3::mk , 0 , 8 , false > c3; MACHINE( c3 , "controlled fehlberg78" );
typedef Crk< ST( runge_kutta_dopri5 , IR ) , IR > C4; typedef Ctl< C4::type , C4::mk , 0 , 5 , true > c4; MACHINE( c4 , "controlled dopri5" );
typedef Crk< ST( runge_kutta_dopri5 , AR ) , AR > C5; typedef Ctl< C5::type , C5::mk , 1 , 5 , true > c5; MACHINE( c5 , "controlled dopri5/always_resizer" );
typedef Crk< ST( runge_kutta_cash_karp54 , NR ) , NR > C6; typedef Ctl< C6::type , C6::mk , 0 , 5 , false > c6; MANUAL( c6 , "controlled cash_karp54" );
typedef Crk< ST( runge_kutta_dopri5 , NR ) , NR > C7; typedef Ctl< C7::type , C7::mk , 0 , 5 , true > c7; MANUAL( c7 , "controlled dopri5" );

typedef bulirsch_stoer< V > BS;
struct bs_mk { static BS *make( double eps = 1e-7 , double mx = 0 ) { return new BS( eps , eps , 1.0 , 1.0 , mx ); } };
typedef Ctl< BS , bs_mk , 0 , 8 , false > bs; MACHINE( bs , "bulirsch_stoer" );
typedef bulirsch_stoer< V , double , V , double , RA , DO , NR > BSN;
struct bsn_mk { static BSN *make( double eps = 1e-7 , double mx = 0 ) { return new BSN( eps , eps , 1.0 , 1.0 , mx ); } };
typedef Ctl< BSN , bsn_mk , 0 , 8 , false > bsn; MANUAL( bsn , "bulirsch_stoer" );
typedef bulirsch_stoer< V , double , V , double , RA , DO , AR > BSA;
struct bsa_mk { static BSA *make( double eps = 1e-6 , double mx = 0 ) { return new BSA( eps , eps , 1.0 , 1.0 , mx ); } };
typedef Ctl< BSA , bsa_mk , 1 , 8 , false > bsa; MACHINE( bsa , "bulirsch_stoer/always_resizer" );

template< class E , int Resizes , int Order > struct Cabm : MachineBase< Cabm< E , Resizes , Order > , E >
{
    Cabm() : MachineBase< Cabm , E >( new E( typename E::step_adjuster_type( 1e-6 , 1e-6 , 1.0 ) ) )
    {
        Traits &tr = this->tr;
        tr.controlled = tr.multistep = tr.needs_contiguous = tr.has_reset = true; tr.resizes = Resizes; tr.order = Order; tr.restarts_on_resize = false;
    }
    void reset() { this->s->reset(); }
    bool step( Env &e , V &x , double &t , double &dt ) { Guard g( e ); return this->s->try_step( Sys{ &e } , x , t , dt ) == success; }
    bool configure( double eps , double mx ) { this->s.reset( new E( typename E::step_adjuster_type( eps , eps , mx ? std::fabs( mx ) : 1.0 ) ) ); return true; }
    bool step2( Env &e , V &x , double &t , double &dt )
    {
        V out( x.size() , -7. ); bool ok;
        { Guard g( e ); ok = this->s->try_step( Sys{ &e } , x , t , out , dt ) == success; }
        if( ok ) x = out;
        return ok;
    }
};
typedef controlled_adams_bashforth_moulton< adaptive_adams_bashforth_moulton< 3 , V > > CA3; typedef Cabm< CA3 , 0 , 3 > ca3; MACHINE( ca3 , "controlled_adams_bashforth_moulton<3>" );
typedef adaptive_adams_bashforth_moulton< 5 , V , double , V , double , RA , DO , AR > A5;
typedef controlled_adams_bashforth_moulton< A5 , boost::numeric::odeint::detail::pid_step_adjuster< V , double , V , double , RA , DO , boost::numeric::odeint::detail::H211PI > , default_order_adjuster< 5 , V , double , RA > , AR > CA5;
typedef Cabm< CA5 , 1 , 5 > ca5; MACHINE( ca5 , "controlled_adams_bashforth_moulton<5>/always_resizer" );

// ------------------------------------------------------------ dense output
template< class S , class Make , int Resizes , int Order , bool Adaptive > struct Dense : MachineBase< Dense< S , Make , Resizes , Order , Adaptive > , S >
{
    Dense() : MachineBase< Dense , S >( Make::make() )
    {
        Traits &tr = this->tr;
        tr.dense = true; tr.controlled = Adaptive; tr.resizes = Resizes; tr.order = Order; tr.has_reset = true; tr.retry_ok = true; tr.needs_contiguous = true;
    }
    void begin( Env &e , const V &x , double t , double dt ) { Guard g( e ); this->s->initialize( x , t , dt ); }
    bool step( Env &e , V &x , double &t , double &dt )
    {
        std::pair< double , double > r;
        { Guard g( e ); r = this->s->do_step( Sys{ &e } ); }
        if( r.first != t || this->s->previous_time() != r.first || this->s->current_time() != r.second )
            e.c.fail( "dense-times" , "do_step returned the interval %.17g..%.17g, previous_time %.17g, current_time %.17g, expected start %.17g" , r.first , r.second , this->s->previous_time() , this->s->current_time() , t );
        if( ref::maxdiff( V( this->s->previous_state().begin() , this->s->previous_state().end() ) , x ) != 0 )
            e.c.fail( "dense-previous-state" , "previous_state() is not the state the step started from" );
        x = this->s->current_state(); t = r.second; dt = this->s->current_time_step();
        return true;
    }
    // the caller's state, or a view of it as an lvalue or an rvalue
    template< class Q , class Tag > static void eval_rvalue( const dense_output_runge_kutta< Q , Tag > &q , double t , V &x ) { q.calc_state( t , boost::make_iterator_range( x.begin() , x.end() ) ); }
    template< class Q > static void eval_rvalue( const Q &q , double t , V &x ) { q.calc_state( t , x ); }
    long evals_made = 0;
    void eval( Env &e , double t , V &x )
    {
        long form = evals_made++ % 3; Guard g( e );
        if( form == 0 || x.empty() ) this->s->calc_state( t , x );
        else if( form == 1 ) { boost::iterator_range< V::iterator > r( x.begin() , x.end() ); this->s->calc_state( t , r ); }
        else eval_rvalue( *this->s , t , x );
    }
    template< class M > static auto conf( std::unique_ptr< S > &s , double eps , double mx , M * ) -> decltype( M::make( eps , mx ) , bool() ) { s.reset( M::make( eps , mx ) ); return true; }
    static bool conf( std::unique_ptr< S > & , double , double , ... ) { return false; }
    bool configure( double eps , double mx ) { return conf( this->s , eps , mx , (Make *)0 ); }
};
template< class R > struct DpD
{
    typedef typename Crk< ST( runge_kutta_dopri5 , R ) , R >::type C;
    typedef dense_output_runge_kutta< C > type;
    static type *make( double eps = 1e-5 , double mx = 0 ) { return new type( *std::unique_ptr< C >( Crk< ST( runge_kutta_dopri5 , R ) , R >::mk::make( eps , mx ) ) ); }
};
typedef Dense< DpD< IR >::type , DpD< IR > , 0 , 4 , true > dd1; MACHINE( dd1 , "dense dopri5" );
typedef Dense< DpD< AR >::type , DpD< AR > , 1 , 4 , true > dd2; MACHINE( dd2 , "dense dopri5/always_resizer" );
struct EuD { typedef dense_output_runge_kutta< euler< V > > type; static type *make() { return new type(); } };
typedef Dense< EuD::type , EuD , 0 , 1 , false > ed; MACHINE( ed , "dense euler" );
typedef Dense< DpD< NR >::type , DpD< NR > , 0 , 4 , true > dd3; MANUAL( dd3 , "dense dopri5" );
struct EuDn { typedef dense_output_runge_kutta< ST( euler , NR ) > type; static type *make() { return new type(); } };
typedef Dense< EuDn::type , EuDn , 0 , 1 , false > edn; MANUAL( edn , "dense euler" );
struct BsD { typedef bulirsch_stoer_dense_out< V > type; static type *make( double eps = 1e-7 , double mx = 0 ) { return new type( eps , eps , 1.0 , 1.0 , mx ); } };
typedef Dense< BsD::type , BsD , 0 , 8 , true > bd; MACHINE( bd , "bulirsch_stoer_dense_out" );
struct BsDn { typedef bulirsch_stoer_dense_out< V , double , V , double , RA , DO , NR > type; static type *make( double eps = 1e-7 , double mx = 0 ) { return new type( eps , eps , 1.0 , 1.0 , mx ); } };
typedef Dense< BsDn::type , BsDn , 0 , 8 , true > bdn; MANUAL( bdn , "bulirsch_stoer_dense_out" );
struct BsDi { typedef bulirsch_stoer_dense_out< V > type; static type *make( double eps = 1e-6 , double mx = 0 ) { return new type( eps , eps , 1.0 , 1.0 , mx , true ); } };
typedef Dense< BsDi::type , BsDi , 0 , 8 , true > bdi; MACHINE( bdi , "bulirsch_stoer_dense_out/control_interpolation" );
struct BsDa { typedef bulirsch_stoer_dense_out< V , double , V , double , RA , DO , AR > type; static type *make( double eps = 1e-6 , double mx = 0 ) { return new type( eps , eps , 1.0 , 1.0 , mx ); } };
typedef Dense< BsDa::type , BsDa , 1 , 8 , true > bda; MACHINE( bda , "bulirsch_stoer_dense_out/always_resizer" );
} // namespace mach
