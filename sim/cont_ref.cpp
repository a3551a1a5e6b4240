// references: std::vector with the range algebra, one per number type
#include "cont.hpp"
namespace cont {
std::vector< Variant > &variants() { static std::vector< Variant > v; return v; }
Runner *reference( Elem e , int k , size_t n )
{
    switch( e )
    {
    case FLOAT: return Make< std::vector< float > , float , float , RA , DO , AR , WITH_NORM >::go( k , n );
    case LDOUBLE: return Make< std::vector< long double > , long double , long double , RA , DO , AR , WITH_NORM >::go( k , n );
    case COMPLEX: return Make< std::vector< std::complex< double > > , double , double , RA , DO , AR , NO_CABM >::go( k , n );
    default: return Make< std::vector< double > , double , double , RA , DO , AR , WITH_NORM >::go( k , n );
    }
}
} // namespace cont
