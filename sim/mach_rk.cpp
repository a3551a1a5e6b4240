// one-step and multistep machines
#include "mach.hpp"
namespace mach {
std::vector< Entry > &machines() { static std::vector< Entry > m; return m; }
std::vector< Entry > &manual_machines() { static std::vector< Entry > m; return m; }

template< class S , int Resizes , int Order > struct Plain : MachineBase< Plain< S , Resizes , Order > , S >
{
    Plain() : MachineBase< Plain , S >( new S ) { this->tr.resizes = Resizes; this->tr.order = Order; this->tr.has_reset = true; this->tr.retry_ok = false; }
    bool step( Env &e , V &x , double &t , double &dt ) { { Guard g( e ); this->s->do_step( Sys{ &e } , x , t , dt ); } t += dt; return true; }
    bool step2( Env &e , V &x , double &t , double &dt )
    {
        V out( x.size() , -7.0 );
        { Guard g( e ); Sys s{ &e }; this->s->do_step( std::ref( s ) , x , t , out , dt ); }
        x = out; t += dt; return true;
    }
};
template< class S , int Resizes , int Order > struct Fsal : MachineBase< Fsal< S , Resizes , Order > , S >
{
    Fsal() : MachineBase< Fsal , S >( new S ) { this->tr.resizes = Resizes; this->tr.order = Order; this->tr.has_reset = true; this->tr.fsal = this->tr.needs_contiguous = true; }
    void reset() { this->s->reset(); }
    bool step( Env &e , V &x , double &t , double &dt ) { { Guard g( e ); this->s->do_step( Sys{ &e } , x , t , dt ); } t += dt; return true; }
    bool step2( Env &e , V &x , double &t , double &dt )
    {
        V out( x.size() , -7.0 ) , err( x.size() );
        { Guard g( e ); Sys s{ &e }; this->s->do_step( std::ref( s ) , x , t , out , dt , err ); }
        x = out; t += dt; return true;
    }
};
using namespace boost::numeric::odeint;
typedef range_algebra RA; typedef default_operations DO;

#define RK( cls , ord ) \
    typedef Plain< cls< V > , 0 , ord > cls##_i; MACHINE( cls##_i , #cls ); \
    typedef Plain< cls< V , double , V , double , RA , DO , always_resizer > , 1 , ord > cls##_a; MACHINE( cls##_a , #cls "/always_resizer" ); \
    typedef Plain< cls< V , double , V , double , RA , DO , never_resizer > , 0 , ord > cls##_n; MANUAL( cls##_n , #cls );
RK( euler , 1 )
RK( modified_midpoint , 2 )
RK( runge_kutta4 , 4 )
RK( runge_kutta4_classic , 4 )
RK( runge_kutta_cash_karp54 , 5 )
RK( runge_kutta_cash_karp54_classic , 5 )
RK( runge_kutta_fehlberg78 , 8 )
typedef Plain< extrapolation_stepper< 4 , V > , 0 , 4 > ex4; MACHINE( ex4 , "extrapolation_stepper<4>" );
typedef Plain< extrapolation_stepper< 4 , V , double , V , double , RA , DO , never_resizer > , 0 , 4 > ex4n; MANUAL( ex4n , "extrapolation_stepper<4>" );
typedef Plain< extrapolation_stepper< 8 , V , double , V , double , RA , DO , always_resizer > , 1 , 8 > ex8; MACHINE( ex8 , "extrapolation_stepper<8>/always_resizer" );
typedef Fsal< runge_kutta_dopri5< V > , 0 , 5 > dp_i; MACHINE( dp_i , "runge_kutta_dopri5" );
typedef Fsal< runge_kutta_dopri5< V , double , V , double , RA , DO , never_resizer > , 0 , 5 > dp_n; MANUAL( dp_n , "runge_kutta_dopri5" );
typedef Fsal< runge_kutta_dopri5< V , double , V , double , RA , DO , always_resizer > , 1 , 5 > dp_a; MACHINE( dp_a , "runge_kutta_dopri5/always_resizer" );

// generic Runge-Kutta steppers with user supplied coefficients
template< class R > struct heun3 : explicit_generic_rk< 3 , 3 , V , double , V , double , RA , DO , R >
{
    typedef explicit_generic_rk< 3 , 3 , V , double , V , double , RA , DO , R > B;
    static boost::array< double , 1 > a1() { boost::array< double , 1 > r = {{ 1. / 3 }}; return r; }
    static boost::array< double , 2 > a2() { boost::array< double , 2 > r = {{ 0 , 2. / 3 }}; return r; }
    static boost::array< double , 3 > b() { boost::array< double , 3 > r = {{ 0.25 , 0 , 0.75 }}; return r; }
    static boost::array< double , 3 > cc() { boost::array< double , 3 > r = {{ 0 , 1. / 3 , 2. / 3 }}; return r; }
    heun3() : B( boost::fusion::make_vector( a1() , a2() ) , b() , cc() ) { }
};
template< class R > struct bs32 : explicit_error_generic_rk< 4 , 3 , 3 , 2 , V , double , V , double , RA , DO , R >
{
    typedef explicit_error_generic_rk< 4 , 3 , 3 , 2 , V , double , V , double , RA , DO , R > B;
    static boost::array< double , 1 > a1() { boost::array< double , 1 > r = {{ 0.5 }}; return r; }
    static boost::array< double , 2 > a2() { boost::array< double , 2 > r = {{ 0 , 0.75 }}; return r; }
    static boost::array< double , 3 > a3() { boost::array< double , 3 > r = {{ 2. / 9 , 1. / 3 , 4. / 9 }}; return r; }
    static boost::array< double , 4 > b() { boost::array< double , 4 > r = {{ 2. / 9 , 1. / 3 , 4. / 9 , 0 }}; return r; }
    static boost::array< double , 4 > b2() { boost::array< double , 4 > r = {{ 2. / 9 - 7. / 24 , 1. / 3 - 0.25 , 4. / 9 - 1. / 3 , -0.125 }}; return r; }
    static boost::array< double , 4 > cc() { boost::array< double , 4 > r = {{ 0 , 0.5 , 0.75 , 1 }}; return r; }
    bs32() : B( boost::fusion::make_vector( a1() , a2() , a3() ) , b() , b2() , cc() ) { }
};
typedef Plain< heun3< initially_resizer > , 0 , 3 > heun3_m; MACHINE( heun3_m , "explicit_generic_rk" );
typedef Plain< heun3< always_resizer > , 1 , 3 > heun3_a; MACHINE( heun3_a , "explicit_generic_rk/always_resizer" );
typedef Plain< heun3< never_resizer > , 0 , 3 > heun3_n; MANUAL( heun3_n , "explicit_generic_rk" );
typedef Plain< bs32< initially_resizer > , 0 , 3 > bs32_m; MACHINE( bs32_m , "explicit_error_generic_rk" );
typedef Plain< bs32< always_resizer > , 1 , 3 > bs32_a; MACHINE( bs32_a , "explicit_error_generic_rk/always_resizer" );
typedef Plain< bs32< never_resizer > , 0 , 3 > bs32_n; MANUAL( bs32_n , "explicit_error_generic_rk" );
} // namespace mach
