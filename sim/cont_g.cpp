// quantities with units; the derivative is another type than the state
#include "cont.hpp"
#include <boost/units/systems/si/length.hpp>
#include <boost/units/systems/si/time.hpp>
#include <boost/units/systems/si/velocity.hpp>
#include <boost/units/systems/si/acceleration.hpp>
#include <boost/units/systems/si/io.hpp>
#include <boost/fusion/container/vector.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra_dispatcher.hpp>
namespace cont {
namespace un = boost::units; namespace si = boost::units::si; namespace fu = boost::fusion;
typedef un::quantity< si::time , double > Ti; typedef un::quantity< si::length , double > Le; typedef un::quantity< si::velocity , double > Ve; typedef un::quantity< si::acceleration , double > Ac;
typedef fu::vector< Le , Ve > St; typedef fu::vector< Ve , Ac > De;
template<> struct Tm< Ti > { static Ti mk( double v ) { return v * si::second; } static double val( const Ti &t ) { return t / si::second; } };
template< class F > struct FuRep
{
    typedef typename std::decay< typename fu::result_of::at_c< F , 0 >::type >::type Q0; typedef typename std::decay< typename fu::result_of::at_c< F , 1 >::type >::type Q1;
    static V get( const F &f ) { return V{ fu::at_c< 0 >( f ).value() , fu::at_c< 1 >( f ).value() }; }
    static void put( F &f , const V &v ) { fu::at_c< 0 >( f ) = Q0::from_value( v.at( 0 ) ); fu::at_c< 1 >( f ) = Q1::from_value( v.at( 1 ) ); }
    static void init( F & , size_t ) { } static void kill( F & ) { }
};
template<> struct Rep< St > : FuRep< St > { }; template<> struct Rep< De > : FuRep< De > { };
VARIANT( "units" , DOUBLE , 2 , false , St , double , Ti , ode::fusion_algebra , DO , IR , WITH_UNITS , De );
} // namespace cont
