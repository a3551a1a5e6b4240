// other number types
#include "cont.hpp"
#include <boost/array.hpp>
namespace cont {
typedef std::complex< double > Cd; typedef boost::array< Cd , 2 > C2; typedef boost::array< float , 3 > F3; typedef boost::array< long double , 3 > L3;
VARIANT( "boost::array<complex>" , COMPLEX , 2 , false , C2 , double , double , ode::array_algebra , DO , IR , NO_CABM );
VARIANT( "boost::array<float>" , FLOAT , 3 , false , F3 , float , float , ode::array_algebra , DO , IR , WITH_NORM );
VARIANT( "boost::array<long double>" , LDOUBLE , 3 , false , L3 , long double , long double , ode::array_algebra , DO , IR , WITH_NORM );
} // namespace cont
