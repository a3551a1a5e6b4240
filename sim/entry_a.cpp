// basic and multistep steppers
#include "entry.hpp"
namespace entry {
using namespace boost::numeric::odeint;
struct K1 : BasicOps , WithRange { typedef runge_kutta4< V > type; static type *make() { return new type; } static const char *name() { return "runge_kutta4"; } }; KIND( K1 );
struct K2 : BasicOps , WithRange { typedef runge_kutta_dopri5< V > type; static type *make() { return new type; } static const char *name() { return "runge_kutta_dopri5"; } }; KIND( K2 );
struct K3 : HistOps , NoRange { typedef adams_bashforth< 3 , V > type; static type *make() { return new type; } static const char *name() { return "adams_bashforth<3>"; } }; KIND( K3 );
struct K4 : HistOps , NoRange { typedef adams_bashforth_moulton< 4 , V > type; static type *make() { return new type; } static const char *name() { return "adams_bashforth_moulton<4>"; } }; KIND( K4 );
} // namespace entry
