// Eigen vectors and arrays, GSL vectors
#include "cont.hpp"
#include <boost/numeric/odeint/external/eigen/eigen.hpp>
#include <boost/numeric/odeint/external/gsl/gsl_wrapper.hpp>
namespace cont {
typedef Eigen::VectorXd Ex; typedef Eigen::Vector4d E4; typedef Eigen::Array< double , 3 , 1 > A3; typedef Eigen::Matrix< double , Eigen::Dynamic , Eigen::Dynamic > Em; typedef Eigen::Array< double , Eigen::Dynamic , 1 > Ax;
template< class E > struct EigenRep
{
    static V get( const E &m ) { V v; for( long i = 0 ; i < m.rows() ; ++i ) for( long j = 0 ; j < m.cols() ; ++j ) v.push_back( m( i , j ) ); return v; }
    static void put( E &m , const V &v ) { size_t k = 0; for( long i = 0 ; i < m.rows() ; ++i ) for( long j = 0 ; j < m.cols() ; ++j ) m( i , j ) = v.at( k++ ); }
    static void kill( E & ) { }
};
template<> struct Rep< Ex > : EigenRep< Ex > { static void init( Ex &m , size_t n ) { m.resize( n ); } };
template<> struct Rep< Ax > : EigenRep< Ax > { static void init( Ax &m , size_t n ) { m.resize( n ); } };
template<> struct Rep< E4 > : EigenRep< E4 > { static void init( E4 & , size_t ) { } };
template<> struct Rep< A3 > : EigenRep< A3 > { static void init( A3 & , size_t ) { } };
template<> struct Rep< Em > : EigenRep< Em > { static void init( Em &m , size_t n ) { size_t r = n % 3 == 0 ? 3 : n % 2 == 0 ? 2 : 1; m.resize( r , n / r ); } };
typedef gsl_vector *Gs;
template<> struct Rep< Gs >
{
    static V get( const gsl_vector *x ) { V v; for( size_t i = 0 ; i < x->size ; ++i ) v.push_back( gsl_vector_get( x , i ) ); return v; }
    static void put( Gs &x , const V &v ) { for( size_t i = 0 ; i < x->size ; ++i ) gsl_vector_set( x , i , v.at( i ) ); }
    static void init( Gs &x , size_t n ) { x = gsl_vector_alloc( n ); gsl_vector_set_all( x , -9e9 ); } static void kill( Gs &x ) { gsl_vector_free( x ); }
};
#define DISP( C ) ode::algebra_dispatcher< C >::algebra_type
VARIANT( "Eigen::VectorXd" , DOUBLE , 0 , true , Ex , double , double , DISP( Ex ) , DO , AR , NO_CABM );
VARIANT( "Eigen::Vector4d" , DOUBLE , 4 , false , E4 , double , double , DISP( E4 ) , DO , IR , NO_CABM );
VARIANT( "Eigen::ArrayXd" , DOUBLE , 0 , true , Ax , double , double , DISP( Ax ) , DO , AR , NO_NORM );
VARIANT( "Eigen::Array3d" , DOUBLE , 3 , false , A3 , double , double , DISP( A3 ) , DO , IR , NO_NORM );
VARIANT( "gsl_vector" , DOUBLE , 0 , true , Gs , double , double , RA , DO , AR , NO_NORM );
} // namespace cont
