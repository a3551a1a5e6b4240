// ublas vectors, multi_array, fusion sequences
#include "cont.hpp"
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/util/multi_array_adaption.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra_dispatcher.hpp>
#include <boost/numeric/odeint/algebra/multi_array_algebra.hpp>
#include <boost/fusion/container/vector.hpp>
namespace cont {
namespace ub = boost::numeric::ublas;
typedef ub::vector< double > Ub; typedef ub::matrix< double > Um;
inline size_t rows( size_t n ) { size_t r = n % 3 == 0 ? 3 : n % 2 == 0 ? 2 : 1; return layout() & 1 ? n / r : r; }
template<> struct Rep< Um >
{
    static V get( const Um &m ) { V v; for( size_t i = 0 ; i < m.size1() ; ++i ) for( size_t j = 0 ; j < m.size2() ; ++j ) v.push_back( m( i , j ) ); return v; }
    static void put( Um &m , const V &v ) { size_t k = 0; for( size_t i = 0 ; i < m.size1() ; ++i ) for( size_t j = 0 ; j < m.size2() ; ++j ) m( i , j ) = v.at( k++ ); }
    static void init( Um &m , size_t n ) { size_t r = rows( n ); m.resize( r , n / r ); } static void kill( Um & ) { }
    static bool laid( const Um &m ) { return m.size1() == rows( m.size1() * m.size2() ); }
};
typedef boost::multi_array< double , 2 > Ma;
template<> struct Rep< Ma >
{
    static V get( const Ma &m ) { return V( m.data() , m.data() + m.num_elements() ); }
    static void put( Ma &m , const V &v ) { if( v.size() != m.num_elements() ) throw std::logic_error( "size" ); std::copy( v.begin() , v.end() , m.data() ); }
    static void init( Ma &m , size_t n )
    {
        size_t r = rows( n ); m.resize( boost::extents[r][n / r] );
        boost::array< int , 2 > o = {{ -1 + layout() / 2 , 3 - layout() / 4 }}; m.reindex( o );
    }
    static void kill( Ma & ) { }
    static bool laid( const Ma &m ) { return m.shape()[0] == rows( m.num_elements() ) && m.index_bases()[0] == -1 + layout() / 2 && m.index_bases()[1] == 3 - layout() / 4; }
};
typedef boost::fusion::vector< double , double , double > Fu;
template<> struct Rep< Fu >
{
    static V get( const Fu &f ) { return V{ boost::fusion::at_c< 0 >( f ) , boost::fusion::at_c< 1 >( f ) , boost::fusion::at_c< 2 >( f ) }; }
    static void put( Fu &f , const V &v ) { boost::fusion::at_c< 0 >( f ) = v.at( 0 ); boost::fusion::at_c< 1 >( f ) = v.at( 1 ); boost::fusion::at_c< 2 >( f ) = v.at( 2 ); }
    static void init( Fu & , size_t ) { } static void kill( Fu & ) { }
};
#define DISP( C ) ode::algebra_dispatcher< C >::algebra_type
VARIANT( "ublas::vector/range_algebra" , DOUBLE , 0 , true , Ub , double , double , RA , DO , AR , WITH_NORM );
VARIANT( "ublas::vector" , DOUBLE , 0 , true , Ub , double , double , DISP( Ub ) , DO , AR , NO_NORM );
VARIANT( "ublas::matrix" , DOUBLE , 0 , true , Um , double , double , DISP( Um ) , DO , AR , NO_NORM );
VARIANT( "multi_array" , DOUBLE , 0 , true , Ma , double , double , DISP( Ma ) , DO , AR , NO_CABM );
VARIANT( "fusion::vector" , DOUBLE , 3 , false , Fu , double , double , DISP( Fu ) , DO , IR , WITH_NORM );
} // namespace cont
