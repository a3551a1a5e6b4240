// controlled steppers
#include "entry.hpp"
namespace entry {
using namespace boost::numeric::odeint;
struct K5 : CtlOps , WithRange { typedef controlled_runge_kutta< runge_kutta_cash_karp54< V > > type; static type *make() { return new type( make_controlled< runge_kutta_cash_karp54< V > >( 1e-4 , 1e-4 ) ); } static const char *name() { return "controlled cash_karp54"; } }; KIND( K5 );
struct K6 : CtlOps , WithRange { typedef controlled_runge_kutta< runge_kutta_dopri5< V > > type; static type *make() { return new type( make_controlled< runge_kutta_dopri5< V > >( 1e-4 , 1e-4 ) ); } static const char *name() { return "controlled dopri5"; } }; KIND( K6 );
struct K7 : CtlOps , NoRange { typedef bulirsch_stoer< V > type; static type *make() { return new type( 1e-5 , 1e-5 ); } static const char *name() { return "bulirsch_stoer"; } }; KIND( K7 );
struct K8 : CtlOps , NoRange { typedef controlled_adams_bashforth_moulton< adaptive_adams_bashforth_moulton< 4 , V > > type; static type *make() { return new type( type::step_adjuster_type( 1e-4 , 1e-4 , 1.0 ) ); } static const char *name() { return "controlled_adams_bashforth_moulton<4>"; } }; KIND( K8 );
} // namespace entry
