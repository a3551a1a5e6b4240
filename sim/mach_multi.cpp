// multistep machines
#include "mach.hpp"
namespace mach {
using namespace boost::numeric::odeint;
typedef range_algebra RA; typedef default_operations DO;
template< class S , int Resizes , int Order , int Adaptive > struct Multi : MachineBase< Multi< S , Resizes , Order , Adaptive > , S >
{
    Multi() : MachineBase< Multi , S >( new S )
    { this->tr.resizes = Resizes; this->tr.order = Order; this->tr.has_reset = true; this->tr.multistep = this->tr.needs_contiguous = true; this->tr.restarts_on_resize = !Adaptive; }
    void reset() { this->s->reset(); }
    bool step( Env &e , V &x , double &t , double &dt ) { { Guard g( e ); this->s->do_step( Sys{ &e } , x , t , dt ); } t += dt; return true; }
    bool step2( Env &e , V &x , double &t , double &dt )
    {
        V out( x.size() , -7.0 );
        { Guard g( e ); Sys s{ &e }; this->s->do_step( std::ref( s ) , x , t , out , dt ); }
        x = out; t += dt; return true;
    }
};
template< size_t N > struct Ab
{
    typedef Multi< adams_bashforth< N , V > , 0 , N , 0 > i;
    typedef Multi< adams_bashforth< N , V , double , V , double , RA , DO , always_resizer > , 1 , N , 0 > a;
    typedef Multi< adams_bashforth< N , V , double , V , double , RA , DO , never_resizer > , 0 , N , 0 > n;
};
template< size_t N > struct Abm
{
    typedef Multi< adams_bashforth_moulton< N , V > , 0 , N , 0 > i;
    typedef Multi< adams_bashforth_moulton< N , V , double , V , double , RA , DO , always_resizer > , 1 , N , 0 > a;
    typedef Multi< adams_bashforth_moulton< N , V , double , V , double , RA , DO , never_resizer > , 0 , N , 0 > n;
};
MACHINE( Ab< 1 >::i , "adams_bashforth<1>" );
MACHINE( Ab< 2 >::i , "adams_bashforth<2>" );
MACHINE( Ab< 3 >::a , "adams_bashforth<3>/always_resizer" );
MACHINE( Ab< 4 >::i , "adams_bashforth<4>" );
MACHINE( Ab< 5 >::a , "adams_bashforth<5>/always_resizer" );
MACHINE( Ab< 8 >::i , "adams_bashforth<8>" );
MACHINE( Abm< 1 >::i , "adams_bashforth_moulton<1>" );
MACHINE( Abm< 2 >::a , "adams_bashforth_moulton<2>/always_resizer" );
MACHINE( Abm< 4 >::i , "adams_bashforth_moulton<4>" );
MACHINE( Abm< 4 >::a , "adams_bashforth_moulton<4>/always_resizer" );
MACHINE( Abm< 7 >::i , "adams_bashforth_moulton<7>" );
MANUAL( Ab< 1 >::n , "adams_bashforth<1>" );
MANUAL( Ab< 4 >::n , "adams_bashforth<4>" );
MANUAL( Ab< 8 >::n , "adams_bashforth<8>" );
MANUAL( Abm< 1 >::n , "adams_bashforth_moulton<1>" );
MANUAL( Abm< 4 >::n , "adams_bashforth_moulton<4>" );
typedef Multi< adaptive_adams_bashforth_moulton< 3 , V > , 0 , 3 , 1 > aabm3; MACHINE( aabm3 , "adaptive_adams_bashforth_moulton<3>" );
typedef Multi< adaptive_adams_bashforth_moulton< 5 , V , double , V , double , RA , DO , always_resizer > , 1 , 5 , 1 > aabm5; MACHINE( aabm5 , "adaptive_adams_bashforth_moulton<5>/always_resizer" );
} // namespace mach
