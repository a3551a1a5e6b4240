// ranges of double: resizeable and fixed-size containers, arrays
#include "cont.hpp"
#include <deque>
#include <list>
#include <array>
#include <boost/array.hpp>
#include <boost/container/small_vector.hpp>
namespace boost { namespace numeric { namespace odeint {
template<> struct is_resizeable< std::deque< double > > : boost::true_type { };
template<> struct is_resizeable< std::list< double > > : boost::true_type { };
template<> struct resize_impl< std::list< double > , std::list< double > > { static void resize( std::list< double > &a , const std::list< double > &b ) { a.resize( b.size() ); } };
template<> struct same_size_impl< std::list< double > , std::list< double > > { static bool same_size( const std::list< double > &a , const std::list< double > &b ) { return a.size() == b.size(); } };
} } }
namespace cont {
VARIANT( "std::vector/initially_resizer" , DOUBLE , 0 , false , std::vector< double > , double , double , RA , DO , IR , WITH_NORM );
VARIANT( "std::deque" , DOUBLE , 0 , true , std::deque< double > , double , double , RA , DO , AR , WITH_NORM );
VARIANT( "std::list" , DOUBLE , 0 , true , std::list< double > , double , double , RA , DO , AR , WITH_NORM );
} // namespace cont
