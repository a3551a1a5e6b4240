// arrays
#include "cont.hpp"
#include <array>
#include <boost/array.hpp>
namespace cont {
typedef boost::array< double , 3 > B3; typedef std::array< double , 4 > S4;
VARIANT( "boost::array" , DOUBLE , 3 , false , B3 , double , double , ode::algebra_dispatcher< B3 >::algebra_type , DO , IR , WITH_NORM );
VARIANT( "boost::array/range_algebra" , DOUBLE , 3 , false , B3 , double , double , RA , DO , IR , WITH_NORM );
VARIANT( "std::array" , DOUBLE , 4 , false , S4 , double , double , ode::algebra_dispatcher< S4 >::algebra_type , DO , IR , WITH_NORM );
} // namespace cont
