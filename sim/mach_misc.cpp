// stiff, symplectic and second-order machines
#include "mach.hpp"
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
namespace mach {
using namespace boost::numeric::odeint;
typedef range_algebra RA; typedef default_operations DO;
typedef boost::numeric::ublas::vector< double > UV;
typedef boost::numeric::ublas::matrix< double > UM;

inline UV uv( const V &x ) { UV u( x.size() ); std::copy( x.begin() , x.end() , u.begin() ); return u; }
inline V vu( const UV &u ) { return V( u.begin() , u.end() ); }
struct Jac
{
    Env *e;
    void fill( const UV &x , UM &J , double t , UV *dfdt ) const
    {
        size_t n = x.size();
        e->rhs_enter( n , J.size1() );
        if( J.size2() != n || ( dfdt && dfdt->size() != n ) ) e->c.fail( "jacobian-size" , "Jacobian called with a %zux%zu matrix for size %zu" , J.size1() , J.size2() , n );
        for( size_t i = 0 ; i < n ; ++i ) for( size_t j = 0 ; j < n ; ++j ) J( i , j ) = 0;
        for( size_t i = 0 ; i < n ; ++i )
        {
            double dii , dij , dt; e->p.jac( i , n , x[i] , x[( i + 1 ) % n] , t , dii , dij , dt );
            J( i , i ) += dii; J( i , ( i + 1 ) % n ) += dij; if( dfdt ) (*dfdt)[i] = dt;
        }
    }
    void operator()( const UV &x , UM &J , const double &t , UV &dfdt ) const { fill( x , J , t , &dfdt ); }
    void operator()( const UV &x , UM &J , const double &t ) const { fill( x , J , t , 0 ); }
};
typedef std::pair< Sys , Jac > SJ;
inline SJ sj( Env &e ) { return SJ( Sys{ &e } , Jac{ &e } ); }

template< class S , int Resizes , int Order , template< class > class A > struct Stiff : MachineBase< Stiff< S , Resizes , Order , A > , S , A >
{
    Stiff() : MachineBase< Stiff , S , A >( new S ) { Traits &tr = this->tr; tr.stiff = true; tr.resizes = Resizes; tr.order = Order; tr.has_reset = true; tr.retry_ok = true; }
    static UV conv( const V &x ) { return uv( x ); }
    bool step( Env &e , V &x , double &t , double &dt ) { UV u = uv( x ); { Guard g( e ); this->s->do_step( sj( e ) , u , t , dt ); } x = vu( u ); t += dt; return true; }
    bool step2( Env &e , V &x , double &t , double &dt ) { UV u = uv( x ); SJ s = sj( e ); { Guard g( e ); this->s->do_step( std::make_pair( std::ref( s.first ) , std::ref( s.second ) ) , u , t , dt ); } x = vu( u ); t += dt; return true; }
};
typedef Stiff< rosenbrock4< double > , 0 , 4 , Replace > ros; MACHINE( ros , "rosenbrock4" );
typedef Stiff< rosenbrock4< double , default_rosenbrock_coefficients< double > , always_resizer > , 1 , 4 , Replace > rosa; MACHINE( rosa , "rosenbrock4/always_resizer" );
typedef Stiff< rosenbrock4< double , default_rosenbrock_coefficients< double > , never_resizer > , 0 , 4 , Replace > rosn; MANUAL( rosn , "rosenbrock4" );
typedef Stiff< implicit_euler< double , never_resizer > , 0 , 1 , Assign > ien; MANUAL( ien , "implicit_euler" );
typedef Stiff< implicit_euler< double > , 0 , 1 , Assign > ie; MACHINE( ie , "implicit_euler" );
typedef Stiff< implicit_euler< double , always_resizer > , 1 , 1 , Assign > iea; MACHINE( iea , "implicit_euler/always_resizer" );

template< class R , int Resizes > struct RosC : MachineBase< RosC< R , Resizes > , rosenbrock4_controller< R > , Replace >
{
    RosC() : MachineBase< RosC , rosenbrock4_controller< R > , Replace >( new rosenbrock4_controller< R >( 1e-5 , 1e-5 ) )
    { Traits &tr = this->tr; tr.stiff = tr.controlled = true; tr.resizes = Resizes; tr.order = 4; tr.has_reset = false; tr.retry_ok = true; }
    static UV conv( const V &x ) { return uv( x ); }
    bool configure( double eps , double mx ) { this->s.reset( new rosenbrock4_controller< R >( eps , eps , mx ) ); return true; }
    bool step( Env &e , V &x , double &t , double &dt ) { UV u = uv( x ); bool r; { Guard g( e ); r = this->s->try_step( sj( e ) , u , t , dt ) == success; } x = vu( u ); return r; }
    bool step2( Env &e , V &x , double &t , double &dt )
    {
        UV u = uv( x ) , o( x.size() ); bool r;
        { Guard g( e ); r = this->s->try_step( sj( e ) , u , t , o , dt ) == success; }
        if( r ) x = vu( o ); return r;
    }
};
typedef rosenbrock4< double > R4; typedef rosenbrock4< double , default_rosenbrock_coefficients< double > , always_resizer > R4A;
typedef rosenbrock4< double , default_rosenbrock_coefficients< double > , never_resizer > R4N;
typedef RosC< R4N , 0 > rcn; MANUAL( rcn , "rosenbrock4_controller" );
typedef RosC< R4 , 0 > rc; MACHINE( rc , "rosenbrock4_controller" );
typedef RosC< R4A , 1 > rca; MACHINE( rca , "rosenbrock4_controller/always_resizer" );
template< class R , int Resizes > struct RosD : MachineBase< RosD< R , Resizes > , rosenbrock4_dense_output< rosenbrock4_controller< R > > , Replace >
{
    typedef rosenbrock4_dense_output< rosenbrock4_controller< R > > D;
    RosD() : MachineBase< RosD , D , Replace >( new D( rosenbrock4_controller< R >( 1e-5 , 1e-5 ) ) )
    { Traits &tr = this->tr; tr.stiff = tr.controlled = tr.dense = tr.needs_contiguous = true; tr.resizes = Resizes; tr.order = 3; tr.has_reset = false; tr.retry_ok = true; }
    static UV conv( const V &x ) { return uv( x ); }
    bool configure( double eps , double mx ) { this->s.reset( new D( rosenbrock4_controller< R >( eps , eps , mx ) ) ); return true; }
    void begin( Env &e , const V &x , double t , double dt ) { UV u = uv( x ); Guard g( e ); this->s->initialize( u , t , dt ); }
    bool step( Env &e , V &x , double &t , double &dt )
    {
        std::pair< double , double > r;
        { Guard g( e ); r = this->s->do_step( sj( e ) ); }
        if( r.first != t || this->s->previous_time() != r.first || this->s->current_time() != r.second ) e.c.fail( "dense-times" , "do_step returned the interval %.17g..%.17g, expected start %.17g" , r.first , r.second , t );
        if( ref::maxdiff( vu( this->s->previous_state() ) , x ) != 0 ) e.c.fail( "dense-previous-state" , "previous_state() is not the state the step started from" );
        x = vu( this->s->current_state() ); t = r.second; dt = this->s->current_time_step();
        return true;
    }
    void eval( Env &e , double t , V &x ) { UV u( x.size() ); { Guard g( e ); this->s->calc_state( t , u ); } x = vu( u ); }
};
typedef RosD< R4N , 0 > rdn; MANUAL( rdn , "rosenbrock4_dense_output" );
typedef RosD< R4 , 0 > rd; MACHINE( rd , "rosenbrock4_dense_output" );
typedef RosD< R4A , 1 > rda; MACHINE( rda , "rosenbrock4_dense_output/always_resizer" );

// ------------------------------------------------------------ pairs of coordinates and momenta, flattened as q..., p...
typedef std::pair< V , V > P;
inline P split( const V &x ) { return P( V( x.begin() , x.begin() + x.size() / 2 ) , V( x.begin() + x.size() / 2 , x.end() ) ); }
inline V join( const P &p ) { V x = p.first; x.insert( x.end() , p.second.begin() , p.second.end() ); return x; }
struct Force { Env *e; void operator()( const V &q , V &dp ) const { e->rhs_enter( 2 * q.size() , 2 * dp.size() ); for( size_t i = 0 ; i < q.size() ; ++i ) dp[i] = e->p.force( i , q[i] ); } };
struct Velo { Env *e; void operator()( const V &p , V &dq ) const { e->rhs_enter( 2 * p.size() , 2 * dq.size() ); dq = p; } };
struct Acc
{
    Env *e;
    void operator()( const V &q , const V &v , V &a , double t ) const
    { e->rhs_enter( q.size() + v.size() , 2 * a.size() ); for( size_t i = 0 ; i < q.size() ; ++i ) a[i] = e->p.force( i , q[i] ) + ( e->p.autonomous ? 0 : e->p.b[i % 8] * std::cos( t ) ); }
};
template< class S , int Resizes , int Order > struct Symp : MachineBase< Symp< S , Resizes , Order > , S , Replace >
{
    Symp() : MachineBase< Symp , S , Replace >( new S ) { Traits &tr = this->tr; tr.pairs = true; tr.resizes = Resizes; tr.order = Order; tr.has_reset = true; }
    static V conv( const V &x ) { return split( x ).first; }
    bool step( Env &e , V &x , double &t , double &dt )
    {
        P p = split( x );
        { Guard g( e ); this->s->do_step( std::make_pair( Velo{ &e } , Force{ &e } ) , p , t , dt ); }
        x = join( p ); t += dt; return true;
    }
    bool step2( Env &e , V &x , double &t , double &dt )
    {
        P p = split( x ) , o = p;
        { Guard g( e ); this->s->do_step( Force{ &e } , p , t , o , dt ); }
        x = join( o ); t += dt; return true;
    }
};
typedef Symp< symplectic_euler< V > , 0 , 1 > sy1; MACHINE( sy1 , "symplectic_euler" );
typedef Symp< symplectic_euler< V , V , double , V , V , double , RA , DO , always_resizer > , 1 , 1 > sy1a; MACHINE( sy1a , "symplectic_euler/always_resizer" );
typedef Symp< symplectic_euler< V , V , double , V , V , double , RA , DO , never_resizer > , 0 , 1 > sy1n; MANUAL( sy1n , "symplectic_euler" );
typedef Symp< symplectic_rkn_sb3a_mclachlan< V , V , double , V , V , double , RA , DO , never_resizer > , 0 , 4 > sy2n; MANUAL( sy2n , "symplectic_rkn_sb3a_mclachlan" );
typedef Symp< symplectic_rkn_sb3a_mclachlan< V > , 0 , 4 > sy2; MACHINE( sy2 , "symplectic_rkn_sb3a_mclachlan" );
typedef Symp< symplectic_rkn_sb3a_m4_mclachlan< V , V , double , V , V , double , RA , DO , always_resizer > , 1 , 4 > sy3; MACHINE( sy3 , "symplectic_rkn_sb3a_m4_mclachlan/always_resizer" );
template< class S , int Resizes > struct Verlet : MachineBase< Verlet< S , Resizes > , S >
{
    Verlet() : MachineBase< Verlet , S >( new S ) { Traits &tr = this->tr; tr.pairs = true; tr.resizes = Resizes; tr.order = 2; tr.has_reset = true; tr.needs_contiguous = tr.fsal = true; }
    static V conv( const V &x ) { return split( x ).first; }
    void reset() { this->s->reset(); }
    bool step( Env &e , V &x , double &t , double &dt ) { P p = split( x ); { Guard g( e ); this->s->do_step( Acc{ &e } , p , t , dt ); } x = join( p ); t += dt; return true; }
    bool step2( Env &e , V &x , double &t , double &dt ) { P p = split( x ); Acc a{ &e }; { Guard g( e ); this->s->do_step( std::ref( a ) , std::make_pair( std::ref( p.first ) , std::ref( p.second ) ) , t , dt ); } x = join( p ); t += dt; return true; }
};
typedef Verlet< velocity_verlet< V > , 0 > vv; MACHINE( vv , "velocity_verlet" );
typedef Verlet< velocity_verlet< V , V , double , V , double , double , RA , DO , never_resizer > , 0 > vvn; MANUAL( vvn , "velocity_verlet" );
typedef Verlet< velocity_verlet< V , V , double , V , double , double , RA , DO , always_resizer > , 1 > vva; MACHINE( vva , "velocity_verlet/always_resizer" );
} // namespace mach
