// dense-output steppers
#include "entry.hpp"
namespace entry {
using namespace boost::numeric::odeint;
struct K9 : DenseOps , NoRange { typedef dense_output_runge_kutta< controlled_runge_kutta< runge_kutta_dopri5< V > > > type; static type *make() { return new type( make_dense_output< runge_kutta_dopri5< V > >( 1e-4 , 1e-4 ) ); } static const char *name() { return "dense dopri5"; } }; KIND( K9 );
struct K10 : DenseOps , NoRange { typedef bulirsch_stoer_dense_out< V > type; static type *make() { return new type( 1e-5 , 1e-5 ); } static const char *name() { return "bulirsch_stoer_dense_out"; } }; KIND( K10 );
struct K11 : DenseOps , NoRange { typedef dense_output_runge_kutta< euler< V > > type; static type *make() { return new type; } static const char *name() { return "dense euler"; } }; KIND( K11 );
} // namespace entry
