// single numbers and points in a vector space
#include "cont.hpp"
#include <boost/operators.hpp>
namespace cont {
struct Point : boost::additive1< Point , boost::additive2< Point , double , boost::multiplicative2< Point , double > > >
{
    double x , y , z;
    Point() : x( -9e9 ) , y( -9e9 ) , z( -9e9 ) { }
    Point( double v ) : x( v ) , y( v ) , z( v ) { }
    Point( double a , double b , double c ) : x( a ) , y( b ) , z( c ) { }
    Point &operator+=( const Point &p ) { x += p.x; y += p.y; z += p.z; return *this; }
    Point &operator-=( const Point &p ) { x -= p.x; y -= p.y; z -= p.z; return *this; }
    Point &operator*=( double a ) { x *= a; y *= a; z *= a; return *this; }
    Point &operator/=( double a ) { x /= a; y /= a; z /= a; return *this; }
    Point &operator+=( double a ) { x += a; y += a; z += a; return *this; }
    Point &operator-=( double a ) { x -= a; y -= a; z -= a; return *this; }
};
inline Point operator/( const Point &a , const Point &b ) { return Point( a.x / b.x , a.y / b.y , a.z / b.z ); }
inline Point abs( const Point &a ) { return Point( std::fabs( a.x ) , std::fabs( a.y ) , std::fabs( a.z ) ); }
template<> struct Rep< Point >
{
    static V get( const Point &p ) { return V{ p.x , p.y , p.z }; }
    static void put( Point &p , const V &v ) { p = Point( v.at( 0 ) , v.at( 1 ) , v.at( 2 ) ); }
    static void init( Point & , size_t ) { } static void kill( Point & ) { }
};
template< class F > struct NumRep
{
    static V get( F p ) { return V( 1 , (double)p ); } static void put( F &p , const V &v ) { p = (F)v.at( 0 ); }
    static void init( F &p , size_t ) { p = F( -9e9 ); } static void kill( F & ) { }
};
template<> struct Rep< double > : NumRep< double > { };
template<> struct Rep< float > : NumRep< float > { };
typedef std::complex< double > Cd;
template<> struct Rep< Cd >
{
    static V get( const Cd &p ) { return V{ p.real() , p.imag() }; } static void put( Cd &p , const V &v ) { p = Cd( v.at( 0 ) , v.at( 1 ) ); }
    static void init( Cd &p , size_t ) { p = Cd( -9e9 , -9e9 ); } static void kill( Cd & ) { }
};
} // namespace cont
namespace boost { namespace numeric { namespace odeint {
template<> struct vector_space_norm_inf< cont::Point > { typedef double result_type; double operator()( const cont::Point &p ) const { return std::max( std::max( std::fabs( p.x ) , std::fabs( p.y ) ) , std::fabs( p.z ) ); } };
} } }
namespace cont {
#define DISP( C ) ode::algebra_dispatcher< C >::algebra_type
VARIANT( "point" , DOUBLE , 3 , false , Point , double , double , VA , DO , IR , NO_CABM );
VARIANT( "double" , DOUBLE , 1 , false , double , double , double , DISP( double ) , DO , IR , WITH_NORM );
VARIANT( "float" , FLOAT , 1 , false , float , float , float , DISP( float ) , DO , IR , WITH_NORM );
VARIANT( "complex" , COMPLEX , 1 , false , Cd , double , double , DISP( Cd ) , DO , IR , NO_CABM );
} // namespace cont
