// P21 scenarios
#include "cont.hpp"
#include <iterator>
using namespace cont;
namespace {
double tol( Elem e , int kind ) { (void)kind; return e == FLOAT ? 2e-4 : e == LDOUBLE ? 1e-12 : 1e-11; }

// when the state has the type of the time, do_step( sys , in , t , out , dt ) is disabled
bool scalar( const Variant &v ) { return !std::strcmp( v.name , "double" ) || !std::strcmp( v.name , "float" ); }

struct Pair
{
    Ctx &c; World &w; const Variant &v; int kind; std::unique_ptr< Runner > r , x; size_t n; Elem e; double scale = 1;
    Pair( Ctx &c_ , World &w_ , const Variant &v_ , int k , size_t n_ ) : c( c_ ) , w( w_ ) , v( v_ ) , kind( k ) , n( n_ ) , e( v_.elem ) { layout() = 0; x.reset( v.make( k , n ) ); if( x ) r.reset( reference( e , k , n ) ); w.n = n * width( e ); }
    void begin()
    {
        V s; for( size_t i = 0 ; i < w.n ; ++i ) s.push_back( (double)(float)c.real( -2 , 2 ) );
        double t = (double)(float)c.real( -3 , 3 ) , dt = (double)(float)( c.real( 0.02 , 0.3 ) * ( c.chance( 400 ) ? -1 : 1 ) );
        r->set( s , t , dt ); x->set( s , t , dt );
    }
    void compare( const char *what )
    {
        V a = r->state() , b = x->state();
        double d = ref::maxdiff( a , b );
        if( a.size() != b.size() || !( d <= tol( e , kind ) * ( 1 + ref::maxabs( a ) ) ) ) c.fail( "state" , "%s with %s: %s differs from std::vector by %.3g" , kind_name( kind ) , v.name , what , d );
        if( !( std::fabs( r->time() - x->time() ) <= 1e-12 * ( 1 + std::fabs( r->time() ) ) + ( e == FLOAT ? 1e-6 : 0 ) ) ) c.fail( "time" , "%s with %s: time %.17g, with std::vector %.17g" , kind_name( kind ) , v.name , x->time() , r->time() );
        // the proposed step size depends on a small error estimate: rounding of the state is amplified
        double h = std::fabs( r->dt() ) , g = std::fabs( x->dt() );
        if( !( std::fabs( h - g ) <= ( e == FLOAT ? 0.05 : 1e-6 ) * h ) ) c.fail( "step-size" , "%s with %s: step size %.17g, with std::vector %.17g" , kind_name( kind ) , v.name , g , h );
        c.logvec( what , b );
    }
    bool usable() { return ref::maxabs( r->state() ) < 1e3 && std::fabs( r->dt() ) > 1e-4 && std::fabs( r->dt() ) < 20; }
};
} // namespace

SIM_SCENARIO( P21 , container_lockstep , 6 )
{
    World w( c ); const Variant &v = variants()[c.draw( variants().size() )]; int kind = (int)c.draw( KINDS );
    if( kind == 11 && !std::strcmp( v.name , "gsl_vector" ) ) kind = 10;     // adaptive Adams assigns states: not for pointers
    size_t n = v.fixed ? v.fixed : 1 + c.draw( 6 );
    Pair p( c , w , v , kind , n ); if( !p.x ) throw sim::Skip();
    p.begin(); int steps = 2 + (int)c.draw( 10 ); int done = 0;
    for( int i = 0 ; i < steps ; ++i )
    {
        int ev = (int)c.draw( 12 );
        if( ev == 0 ) { p.begin(); c.fault( "jump" ); }
        else if( ev == 1 && v.resizes )
        {
            size_t m = 1 + c.draw( 6 ); int lay = (int)c.draw( 8 ); if( c.chance( 400 ) ) m = p.n;
            if( m != p.n || lay != layout() ) { layout() = lay; p.n = m; w.n = m * width( v.elem ); p.r->resize( m ); p.x->resize( m ); c.fault( "size-change" ); } p.begin();
        }
        else if( ev == 2 ) { std::unique_ptr< Runner > q( p.x->copy() ); if( c.chance( 500 ) ) p.x.swap( q ); c.fault( "copied" ); if( c.chance( 300 ) ) { q->step( w , 0 ); } }
        else if( ev == 3 && std::strcmp( v.name , "multi_array" ) )     // a multi_array can only be assigned one of the same shape
        {   // assign over a stepper with another history
            std::unique_ptr< Runner > q( v.make( kind , p.n ) ); V s( w.n , 0.5 ); q->set( s , 0 , 0.1 ); if( c.chance( 700 ) ) q->step( w , 0 );
            q->assign( *p.x ); p.x.swap( q ); c.fault( "assigned" );
        }
        else if( ev == 4 )
        {   // an exception; then both start anew
            long at = (long)c.draw( 6 );
            for( Runner *r : { p.r.get() , p.x.get() } ) { w.throw_at = at; try { r->step( w , 0 ); } catch( sim::SimFault & ) { } w.throw_at = -1; }
            p.begin();
        }
        int form = (int)c.draw( 3 ); if( form == 1 && scalar( v ) ) form = 0;
        bool a = p.r->step( w , form ) , b; long evals = w.calls; b = p.x->step( w , form ); ++done;
        if( !p.usable() ) break;
        if( a != b )
        {
            if( v.elem == FLOAT ) break;    // an error estimate at rounding level
            c.fail( "decision" , "%s with %s: step %d %s, with std::vector %s" , kind_name( kind ) , v.name , i , b ? "accepted" : "rejected" , a ? "accepted" : "rejected" );
        }
        if( w.calls != evals ) { if( v.elem == FLOAT ) break; c.fail( "evaluations" , "%s with %s: %ld evaluations, with std::vector %ld" , kind_name( kind ) , v.name , w.calls , evals ); }
        if( v.elem == FLOAT && kind >= 12 && std::fabs( p.r->dt() - p.x->dt() ) > 0.01 * std::fabs( p.r->dt() ) ) break;
        p.compare( "state" );
        double q = c.unit(); V sa , sb;
        if( p.r->eval( q , sa ) ) { p.x->eval( q , sb ); double d = ref::maxdiff( sa , sb ); if( sa.size() != sb.size() || !( d <= 10 * tol( v.elem , kind ) * ( 1 + ref::maxabs( sa ) ) ) ) c.fail( "interpolation" , "%s with %s: interpolated state differs by %.3g" , kind_name( kind ) , v.name , d ); }
        c.elapse( std::fabs( p.r->dt() ) );
    }
    if( done > 1 ) c.nontrivial(); c.cover( v.name ); c.cover( kind_name( kind ) );
}

SIM_SCENARIO( P21 , container_integrate , 2 )
{
    World w( c ); const Variant &v = variants()[c.draw( variants().size() )]; int kind = (int)c.draw( KINDS );
    if( kind == 11 && !std::strcmp( v.name , "gsl_vector" ) ) kind = 10;     // adaptive Adams assigns states: not for pointers
    size_t n = v.fixed ? v.fixed : 1 + c.draw( 6 );
    Pair p( c , w , v , kind , n ); if( !p.x ) throw sim::Skip();
    p.begin(); int driver = (int)c.draw( 3 ); if( !std::strcmp( v.name , "units" ) ) driver = 0; double len = c.real( 0.3 , 3 ) * ( p.r->dt() > 0 ? 1 : -1 );
    std::vector< V > oa , ob; std::vector< double > ta , tb;
    p.r->run( w , driver , len , oa , ta ); p.x->run( w , driver , len , ob , tb );
    c.cover( v.name ); c.cover( kind_name( kind ) ); c.nontrivial(); c.elapse( std::fabs( len ) );
    if( v.elem == FLOAT && kind >= 12 ) { if( driver == 1 ) throw sim::Skip(); }
    if( oa.size() != ob.size() ) c.fail( "observations" , "%s with %s: %zu observations, with std::vector %zu" , kind_name( kind ) , v.name , ob.size() , oa.size() );
    for( size_t i = 0 ; i < oa.size() ; ++i )
    {
        double t1 = v.elem == FLOAT ? 2e-2 : 1e-9;
        if( !( std::fabs( ta[i] - tb[i] ) <= ( v.elem == FLOAT ? 1e-5 : 1e-9 ) ) ) c.fail( "observed-time" , "%s with %s: observation %zu at %.17g, with std::vector at %.17g" , kind_name( kind ) , v.name , i , tb[i] , ta[i] );
        if( !( ref::maxdiff( oa[i] , ob[i] ) <= t1 * ( 1 + ref::maxabs( oa[i] ) ) ) ) c.fail( "observed-state" , "%s with %s: observation %zu at %.17g differs by %.3g" , kind_name( kind ) , v.name , i , tb[i] , ref::maxdiff( oa[i] , ob[i] ) );
    }
    c.logvec( "t" , tb );
}

// the element type does not change the method: float and long double close to double, complex numbers like pairs of reals
SIM_SCENARIO( P21 , number_types , 1 )
{
    World w( c ); Elem e = (Elem)( 1 + c.draw( 3 ) ); int kind = (int)c.draw( 12 ); size_t n = 1 + c.draw( 4 );
    std::unique_ptr< Runner > r( reference( DOUBLE , kind , n * width( e ) ) ) , x( reference( e , kind , n ) ); w.n = n * width( e );
    V s; for( size_t i = 0 ; i < w.n ; ++i ) s.push_back( (double)(float)c.real( -2 , 2 ) );
    double t = (double)(float)c.real( -3 , 3 ) , dt = (double)(float)c.real( 0.02 , 0.2 ); r->set( s , t , dt ); x->set( s , t , dt );
    for( int i = 0 ; i < 6 ; ++i )
    {
        int form = (int)c.draw( 3 ); r->step( w , form ); x->step( w , form ); V a = r->state() , b = x->state();
        if( !( ref::maxabs( a ) < 1e3 ) ) return;
        double d = ref::maxdiff( a , b ) , lim = ( e == FLOAT ? 5e-4 : 1e-11 ) * ( 1 + ref::maxabs( a ) );
        if( !( d <= lim ) ) c.fail( "number-type" , "%s with number type %d differs from double by %.3g after %d steps" , kind_name( kind ) , (int)e , d , i + 1 );
        c.logvec( "x" , b );
    }
    c.nontrivial(); c.cover( kind_name( kind ) );
}
