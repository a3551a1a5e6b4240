// Histories of stepper calls: exceptions, resets, changes of size, allocation failures, copies.
// Oracle: the same stepper type, fresh, without the history (a replica run), plus the
// contract of each call.
#include "mach.hpp"
#include <new>
using namespace mach;

struct Case { Prob p; V x0; double t0 , dt0; size_t n; };
struct Point { V x; double t , dt; bool acc; long calls; };
typedef std::vector< Point > Traj;

static const Entry &pick_machine( Ctx &c , bool (*ok)( const Traits & ) )
{
    std::vector< const Entry * > v;
    for( const Entry &e : machines() ) if( ok( e.tr ) ) v.push_back( &e );
    const Entry &e = *v[ c.draw( v.size() ) ];
    c.note( "stepper %s" , e.name ); c.cover( e.name );
    return e;
}
static size_t draw_n( Ctx &c , const Traits &tr )
{
    size_t n = 1 + c.draw( 5 );
    if( c.chance( 60 ) ) n = 6 + c.draw( 20 );
    if( tr.pairs ) n *= 2;
    return n;
}
static Case draw_case( Ctx &c , const Traits &tr , size_t n )
{
    Case k; k.n = n; k.p.draw( c );
    k.x0.resize( n ); for( double &v : k.x0 ) v = c.real( -1.5 , 1.5 );
    k.t0 = c.chance( 500 ) ? 0 : c.real( -5 , 5 );
    k.dt0 = c.real( 0.02 , 0.2 );
    if( tr.controlled && c.chance( 400 ) ) k.dt0 = c.real( 0.3 , 2.0 );     // first steps will be rejected
    bool back = c.chance( 400 );
    if( tr.stiff && c.chance( 500 ) ) { back = false; k.p.stiff = c.real( 1 , 40 ); }
    if( back ) k.dt0 = -k.dt0;
    return k;
}
static void fit( Env &e , const Case &k ) { e.p = k.p; e.n = k.n; }
static double scale_of( const V &x ) { return 1 + ref::maxabs( x ); }

// n steps of the plan; use2 bit i selects the other overload for step i
struct Plan { std::vector< char > use2; };
static Plan draw_plan( Ctx &c , int n ) { Plan p; bool mix = c.chance( 400 ); for( int i = 0 ; i < n ; ++i ) p.use2.push_back( mix && c.chance( 400 ) ); return p; }

static bool one( Machine &m , Env &e , char use2 , V &x , double &t , double &dt )
{
    bool r = use2 ? m.step2( e , x , t , dt ) : m.step( e , x , t , dt );
    e.c.log( r ? "step" : "reject" , t , dt ); e.c.logvec( "x" , x );
    if( !r ) e.c.fault( "step-rejected" );
    return r;
}
static Traj run( Machine &m , Env &e , const Case &k , const Plan &p , size_t from = 0 , const Point *at = 0 )
{
    fit( e , k );
    V x = at ? at->x : k.x0; double t = at ? at->t : k.t0 , dt = at ? at->dt : k.dt0;
    m.begin( e , x , t , dt );
    Traj r;
    for( size_t i = from ; i < p.use2.size() ; ++i )
    {
        bool a = one( m , e , p.use2[i] , x , t , dt );
        r.push_back( Point{ x , t , dt , a , e.calls } );
    }
    return r;
}
static void expect_same( Ctx &c , const char *code , const char *name , const Point &a , const Point &b , size_t i , const char *what )
{
    double s = scale_of( b.x );
    if( !( ref::maxdiff( a.x , b.x ) <= 1e-11 * s ) )
    {
        size_t w = 0; double d = -1;
        for( size_t j = 0 ; j < a.x.size() && j < b.x.size() ; ++j ) { double q = std::fabs( a.x[j] - b.x[j] ); if( !( q <= d ) ) { d = q; w = j; } }
        c.fail( code , "%s: step %zu gives x[%zu]=%.17g, %s gives %.17g" , name , i , w , w < a.x.size() ? a.x[w] : 0 , what , w < b.x.size() ? b.x[w] : 0 );
    }
    if( a.acc != b.acc ) c.fail( code , "%s: step %zu %s, but %s: %s" , name , i , a.acc ? "accepted" : "rejected" , what , b.acc ? "accepted" : "rejected" );
    if( !( std::fabs( a.t - b.t ) <= 1e-12 * ( 1 + std::fabs( b.t ) ) ) ) c.fail( code , "%s: step %zu ends at t=%.17g, %s at t=%.17g" , name , i , a.t , what , b.t );
    if( !( std::fabs( a.dt - b.dt ) <= 1e-9 * ( 1e-3 + std::fabs( b.dt ) ) ) ) c.fail( code , "%s: step %zu proposes dt=%.17g, %s dt=%.17g" , name , i , a.dt , what , b.dt );
}
static void expect_same( Ctx &c , const char *code , const char *name , const Traj &a , const Traj &b , size_t from , const char *what )
{
    for( size_t i = 0 ; i < a.size() && i + from < b.size() ; ++i ) expect_same( c , code , name , a[i] , b[i + from] , i + from , what );
}
// dense output: the interpolation must agree too
static void expect_same_dense( Ctx &c , const char *code , Machine &a , Env &ea , Machine &b , Env &eb , const Point &p0 , const Point &p1 )
{
    if( !a.tr.dense || !p1.acc ) return;
    double t = p0.t + ( p1.t - p0.t ) * c.unit();
    V xa( p1.x.size() ) , xb( p1.x.size() );
    a.eval( ea , t , xa ); b.eval( eb , t , xb );
    if( !( ref::maxdiff( xa , xb ) <= 1e-11 * scale_of( xb ) ) )
        c.fail( code , "%s: calc_state(%.17g) gives %.17g, the undisturbed replica %.17g" , a.name , t , xa[0] , xb[0] );
}

typedef std::unique_ptr< Machine > MP;
static MP fresh( const Entry &e ) { MP m( e.make() ); m->name = e.name; return m; }

// some history that must not matter afterwards
static void junk( Ctx &c , Machine &m , Env &e , size_t n , bool faults )
{
    Case k = draw_case( c , m.tr , n );
    fit( e , k );
    V x = k.x0; double t = k.t0 , dt = k.dt0;
    m.begin( e , x , t , dt );
    int steps = 1 + c.draw( 12 );
    for( int i = 0 ; i < steps ; ++i )
    {
        if( faults && c.chance( 150 ) )
        {
            e.arm( c.chance( 700 ) ? (long)c.draw( 14 ) : -1 , -1 , c.draw( 2 ) );
            if( e.throw_at < 0 ) e.arm( -1 , c.draw( 8 ) , 0 );
        }
        V xs = x; double ts = t , dts = dt;
        try { one( m , e , c.chance( 300 ) , x , t , dt ); e.disarm(); }
        catch( sim::SimFault & ) { e.disarm(); x = xs; t = ts; dt = dts; if( !m.tr.retry_ok ) m.reset(); }
        catch( sim::SimFaultRaw & ) { e.disarm(); x = xs; t = ts; dt = dts; if( !m.tr.retry_ok ) m.reset(); }
        catch( std::bad_alloc & ) { e.disarm(); c.fault( "allocation-fails" ); x = xs; t = ts; dt = dts; if( !m.tr.retry_ok ) m.reset(); }
        catch( ode::odeint_error & ) { e.disarm(); return; }
    }
}

static bool has_reset( const Traits &t ) { return t.has_reset; }
static bool any( const Traits & ) { return true; }
static bool resizes( const Traits &t ) { return t.resizes; }
static bool keeps_size( const Traits &t ) { return !t.resizes && !t.fixed_size; }
static bool resets_dense( const Traits &t ) { return t.dense && t.has_reset; }

// ---------------------------------------------------------------- P09
static void reset_scenario( Ctx &c , bool (*ok)( const Traits & ) )
{
    const Entry &en = pick_machine( c , ok );
    size_t n = draw_n( c , en.tr );
    Env e( c ) , e2( c );
    Case k = draw_case( c , en.tr , n );
    Plan p = draw_plan( c , 2 + c.draw( 9 ) );
    MP a = fresh( en ) , b = fresh( en );
    int rounds = 1 + c.draw( 2 );
    for( int r = 0 ; r < rounds ; ++r )
    {
        junk( c , *b , e2 , en.tr.resizes && c.chance( 300 ) ? draw_n( c , en.tr ) : n , c.chance( 300 ) );
        if( c.chance( 200 ) ) { MP q( b->clone() ); q->name = en.name; b.swap( q ); }
        b->reset();
        if( c.chance( 100 ) ) b->reset();
    }
    // now in lock step with a fresh stepper
    fit( e , k ); fit( e2 , k );
    V xa = k.x0 , xb = k.x0; double ta = k.t0 , tb = ta , da = k.dt0 , db = da;
    a->begin( e , xa , ta , da ); b->begin( e2 , xb , tb , db );
    for( size_t i = 0 ; i < p.use2.size() ; ++i )
    {
        Point p0 = { xa , ta , da , true , 0 };
        bool ra = one( *a , e , p.use2[i] , xa , ta , da ) , rb = one( *b , e2 , p.use2[i] , xb , tb , db );
        Point qa = { xa , ta , da , ra , 0 } , qb = { xb , tb , db , rb , 0 };
        expect_same( c , "history-after-reset" , en.name , qb , qa , i , "a fresh stepper" );
        expect_same_dense( c , "history-after-reset" , *b , e2 , *a , e , p0 , qa );
        if( i > 1 ) c.nontrivial();
    }
    c.elapse( ta - k.t0 );
}
SIM_SCENARIO( P09 , reset_is_fresh , 4 ) { reset_scenario( c , has_reset ); }
SIM_SCENARIO( P09 , reinitialised_dense , 1 ) { reset_scenario( c , resets_dense ); }

// ---------------------------------------------------------------- P06
static void exception_scenario( Ctx &c , bool allocs , const Entry &en , size_t n )
{
    Env e( c ) , e2( c );
    Case k = draw_case( c , en.tr , n );
    Plan p = draw_plan( c , 2 + c.draw( 8 ) );
    MP a = fresh( en ) , b = fresh( en );
    fit( e , k ); fit( e2 , k );
    V xa = k.x0 , xb = k.x0; double ta = k.t0 , tb = ta , da = k.dt0 , db = da;
    a->begin( e , xa , ta , da );
    // initialisation may fail too
    if( allocs && en.tr.dense && c.chance( 400 ) )
    {
        e2.arm( -1 , c.draw( 6 ) , 0 );
        try { b->begin( e2 , xb , tb , db ); }
        catch( std::bad_alloc & ) { c.fault( "allocation-fails" ); }
        e2.disarm();
    }
    b->begin( e2 , xb , tb , db );
    for( size_t i = 0 ; i < p.use2.size() ; ++i )
    {
        Point p0 = { xa , ta , da , true , 0 };
        bool ra = one( *a , e , p.use2[i] , xa , ta , da );
        long calls = e.calls; bool rb = false , done = false; int tries = c.chance( 350 ) || i == 0 ? 1 + (int)c.draw( 2 ) : 0;
        for( int q = 0 ; q < tries && !done ; ++q )
        {
            int kind = (int)c.draw( 2 );
            if( allocs ) e2.arm( -1 , (long)c.draw( i == 0 ? 24 : 4 ) , 0 );
            else e2.arm( (long)c.draw( (sim::u64)calls + 1 ) , -1 , kind );
            V xs = xb; double ts = tb , dts = db;
            int caught = 0;
            try { rb = one( *b , e2 , p.use2[i] , xb , tb , db ); done = true; }
            catch( sim::SimFault &f ) { caught = 1; if( f.id != 7 ) c.fail( "exception-changed" , "%s: the exception object was altered" , en.name ); }
            catch( sim::SimFaultRaw &f ) { caught = 2; if( f.id != 7 ) c.fail( "exception-changed" , "%s: the exception object was altered" , en.name ); }
            catch( std::bad_alloc & ) { caught = 3; c.fault( "allocation-fails" ); }
            catch( ode::odeint_error & ) { c.fail( "exception-replaced" , "%s: an exception of the user's function became an odeint error" , en.name ); }
            bool fired = e2.fired;
            e2.disarm();
            if( allocs ) fired = caught == 3;
            if( fired && !caught ) c.fail( "exception-swallowed" , "%s: the exception thrown by the right-hand side did not reach the caller" , en.name );
            if( caught == 1 && kind != 0 || caught == 2 && kind != 1 ) c.fail( "exception-changed" , "%s: the exception arrived with another type" , en.name );
            if( caught )
            {
                c.nontrivial();
                if( en.tr.retry_ok )
                {
                    if( xb != xs || tb != ts || db != dts ) c.fail( "state-after-exception" , "%s: a step that threw changed the caller's state, time or step size" , en.name );
                }
                else
                {
                    xb = xs; tb = ts; db = dts;
                    b->reset();
                    if( en.tr.multistep ) { a = fresh( en ); xa = xb; ta = tb; da = db; a->begin( e , xa , ta , da ); ra = one( *a , e , p.use2[i] , xa , ta , da ); calls = e.calls; }
                }
            }
        }
        if( !done ) rb = one( *b , e2 , p.use2[i] , xb , tb , db );
        Point qa = { xa , ta , da , ra , 0 } , qb = { xb , tb , db , rb , 0 };
        expect_same( c , "after-exception" , en.name , qb , qa , i , "the undisturbed replica" );
        expect_same_dense( c , "after-exception" , *b , e2 , *a , e , p0 , qa );
    }
    c.elapse( ta - k.t0 );
}
SIM_SCENARIO( P06 , rhs_throws , 4 )
{
    const Entry &en = pick_machine( c , any );
    exception_scenario( c , false , en , draw_n( c , en.tr ) );
}

// ---------------------------------------------------------------- P12
SIM_SCENARIO( P12 , allocation_fails , 2 )
{
    const Entry &en = pick_machine( c , any );
    exception_scenario( c , true , en , draw_n( c , en.tr ) );
}
SIM_SCENARIO( P12 , size_changes , 4 )
{
    const Entry &en = pick_machine( c , resizes );
    Env e( c ) , e2( c );
    MP b = fresh( en );
    int segs = 2 + c.draw( 4 );
    size_t n = draw_n( c , en.tr ) , last = 0;
    double dt_last = 0;
    for( int s = 0 ; s < segs ; ++s )
    {
        Case k = draw_case( c , en.tr , n );
        Plan p = draw_plan( c , 1 + c.draw( 6 ) );
        MP a = fresh( en );
        if( s > 0 && ( n == last || !en.tr.restarts_on_resize || c.chance( 100 ) ) ) b->reset();
        // often with exactly the step size proposed last: nothing but the size tells the stepper that this is another integration
        if( s > 0 && dt_last != 0 && en.tr.controlled && c.chance( 600 ) ) k.dt0 = dt_last;
        fit( e , k ); fit( e2 , k );
        V xa = k.x0 , xb = k.x0; double ta = k.t0 , tb = ta , da = k.dt0 , db = da;
        a->begin( e , xa , ta , da );
        bool af = c.chance( 300 );
        if( af && en.tr.dense )
        {
            e2.arm( -1 , c.draw( 6 ) , 0 );
            try { b->begin( e2 , xb , tb , db ); } catch( std::bad_alloc & ) { c.fault( "allocation-fails" ); }
            e2.disarm();
        }
        b->begin( e2 , xb , tb , db );
        for( size_t i = 0 ; i < p.use2.size() ; ++i )
        {
            bool ra = one( *a , e , p.use2[i] , xa , ta , da ) , rb = false , done = false;
            if( af && i == 0 )
            {
                V xs = xb; double ts = tb , dts = db;
                e2.arm( -1 , (long)c.draw( 24 ) , 0 );
                try { rb = one( *b , e2 , p.use2[i] , xb , tb , db ); done = true; }
                catch( std::bad_alloc & ) { c.fault( "allocation-fails" ); xb = xs; tb = ts; db = dts; if( !en.tr.retry_ok ) b->reset(); }
                e2.disarm();
            }
            if( !done ) rb = one( *b , e2 , p.use2[i] , xb , tb , db );
            if( rb != ra && !en.tr.has_reset ) throw sim::Skip();
            if( !en.tr.has_reset && s > 0 ) { if( rb && ra ) { double d = ref::maxdiff( xb , xa ); if( std::fabs( tb - ta ) < 1e-12 && !( d <= 1e-11 * scale_of( xa ) ) ) c.fail( "after-resize" , "%s: wrong state after the size changed from %zu to %zu" , en.name , last , n ); } if( ta != tb || da != db ) { break; } continue; }
            Point qa = { xa , ta , da , ra , 0 } , qb = { xb , tb , db , rb , 0 };
            expect_same( c , "after-resize" , en.name , qb , qa , i , "a fresh stepper of this size" );
            c.nontrivial();
        }
        last = n;
        dt_last = std::fabs( db ) > 1e-6 && std::fabs( db ) < 2 ? db : 0;
        c.fault( "size-change" );
        if( c.chance( 850 ) ) n = draw_n( c , en.tr );
    }
}

// adjust_size() by hand: before the first use of a never_resizer stepper, and at every change of the size for
// never_resizer and initially_resizer.  Reference: a fresh stepper that allocates by itself.
SIM_SCENARIO( P12 , adjust_size , 3 )
{
    bool manual = c.chance( 500 );
    const Entry &en = manual ? manual_machines()[ c.draw( manual_machines().size() ) ] : pick_machine( c , keeps_size );
    c.note( "%s" , en.name );
    Entry fe = en;
    if( manual )
    {
        bool found = false;
        for( const Entry &m : machines() ) if( !std::strcmp( m.name , en.tr.twin ) ) { fe = m; found = true; }
        if( !found ) c.fail( "harness" , "no machine named %s" , en.tr.twin );
    }
    Env e( c ) , e2( c );
    MP b = fresh( en );
    int segs = 1 + c.draw( 4 );
    size_t n = draw_n( c , en.tr ) , last = 0;
    double dt_last = 0;
    for( int s = 0 ; s < segs ; ++s )
    {
        Case k = draw_case( c , en.tr , n );
        Plan p = draw_plan( c , 1 + c.draw( 6 ) );
        MP a = fresh( fe );
        if( s > 0 && dt_last != 0 && en.tr.controlled && c.chance( 600 ) ) k.dt0 = dt_last;
        fit( e , k ); fit( e2 , k );
        if( ( s > 0 || manual || c.chance( 300 ) ) && ( n != last || c.chance( 300 ) ) )
        {
            bool has = true;
            if( c.chance( 250 ) )
            {
                e2.arm( -1 , (long)c.draw( 12 ) , 0 );
                try { b->adjust( e2 , k.x0 ); } catch( std::bad_alloc & ) { c.fault( "allocation-fails" ); }
                e2.disarm();
            }
            has = b->adjust( e2 , k.x0 );
            if( !has ) throw sim::Skip();
            if( n != last && s > 0 ) c.fault( "size-change" );
        }
        if( s > 0 && ( n == last || !en.tr.restarts_on_adjust || c.chance( 100 ) ) ) b->reset();
        V xa = k.x0 , xb = k.x0; double ta = k.t0 , tb = ta , da = k.dt0 , db = da;
        a->begin( e , xa , ta , da );
        b->begin( e2 , xb , tb , db );
        for( size_t i = 0 ; i < p.use2.size() ; ++i )
        {
            bool ra = one( *a , e , p.use2[i] , xa , ta , da ) , rb = one( *b , e2 , p.use2[i] , xb , tb , db );
            if( rb != ra && !en.tr.has_reset ) throw sim::Skip();
            if( !en.tr.has_reset && s > 0 ) { if( rb && ra ) { double d = ref::maxdiff( xb , xa ); if( std::fabs( tb - ta ) < 1e-12 && !( d <= 1e-11 * scale_of( xa ) ) ) c.fail( "after-adjust-size" , "%s: wrong state after adjust_size() for %zu instead of %zu" , en.name , n , last ); } if( ta != tb || da != db ) { break; } continue; }
            Point qa = { xa , ta , da , ra , 0 } , qb = { xb , tb , db , rb , 0 };
            expect_same( c , "after-adjust-size" , en.name , qb , qa , i , "a fresh stepper of this size" );
            c.nontrivial();
        }
        last = n;
        dt_last = std::fabs( db ) > 1e-6 && std::fabs( db ) < 2 ? db : 0;
        if( c.chance( 850 ) ) n = draw_n( c , en.tr );
    }
    c.cover( "adjust-size" );
}

// first-same-as-last steppers: initialize() with the system or with a derivative, on a fresh stepper or after a
// change of size, with failing right-hand sides and allocations.  Reference: the caller keeps the derivative.
struct FsalPlain
{
    template< class S > static bool step( S &s , Sys f , V &x , double &t , double &dt ) { s.do_step( f , x , t , dt ); t += dt; return true; }
    template< class S > static bool step_ref( S &s , Sys f , V &x , V &d , double &t , double &dt ) { s.do_step( f , x , d , t , dt ); t += dt; return true; }
};
struct FsalCtl
{
    template< class S > static bool step( S &s , Sys f , V &x , double &t , double &dt ) { return s.try_step( f , x , t , dt ) == boost::numeric::odeint::success; }
    template< class S > static bool step_ref( S &s , Sys f , V &x , V &d , double &t , double &dt ) { return s.try_step( f , x , d , t , dt ) == boost::numeric::odeint::success; }
};
template< class S , class K > static void initialize_run( Ctx &c , const Traits &tr , bool resizes , const char *name )
{
    c.note( "%s" , name );
    Env e( c ) , er( c );
    S s;
    size_t n = 1 + c.draw( 6 );
    int segs = 1 + c.draw( 4 );
    for( int g = 0 ; g < segs ; ++g )
    {
        Case k = draw_case( c , tr , n );
        fit( e , k ); fit( er , k );
        Sys f{ &e } , fr{ &er };
        V x = k.x0 , xr = x , d( n ); double t = k.t0 , dt = k.dt0 , tr_ = t , dr = dt;
        fr( xr , d , t );
        int how = (int)c.draw( 5 );
        c.log( "segment" , (double)n , (double)how );
        bool af = c.chance( 250 );
        auto init = [&] {
            Guard q( e );
            switch( how )
            {
            case 0: s.initialize( f , x , t ); break;
            case 1: s.initialize( boost::ref( f ) , x , t ); break;
            case 2: s.initialize( d ); break;
            case 3: s.adjust_size( x ); s.initialize( f , x , t ); break;
            default: s.reset(); break;                          // the first step does it
            } };
        if( af )
        {
            bool rhs = c.chance( 500 );
            e.arm( rhs ? 0 : -1 , rhs ? -1 : (long)c.draw( 3 ) , (int)c.draw( 2 ) );
            try { init(); }
            catch( std::bad_alloc & ) { c.fault( "allocation-fails" ); }
            catch( sim::SimFault & ) { }
            catch( sim::SimFaultRaw & ) { }
            e.disarm();
        }
        init();
        if( how < 4 && !s.is_initialized() ) c.fail( "is-initialized" , "%s: not initialized after initialize()" , name );
        S ref;
        int steps = 1 + c.draw( 5 );
        for( int i = 0 ; i < steps ; ++i )
        {
            bool a , b;
            { Guard q( e ); a = K::step( s , f , x , t , dt ); }
            b = K::step_ref( ref , fr , xr , d , tr_ , dr );
            Point p = { x , t , dt , a , 0 } , r = { xr , tr_ , dr , b , 0 };
            c.log( a ? "step" : "reject" , t , dt );
            expect_same( c , "after-initialize" , name , p , r , (size_t)i , "a stepper given the derivative" );
        }
        c.nontrivial();
        if( !resizes ) { if( g ) c.fault( "re-initialize" ); }
        else if( c.chance( 800 ) ) { n = 1 + c.draw( 6 ); c.fault( "size-change" ); }
    }
}
SIM_SCENARIO( P12 , initialize_sizes , 1 )
{
    using namespace boost::numeric::odeint;
    typedef range_algebra RA; typedef default_operations DO;
    typedef runge_kutta_dopri5< V > D1; typedef runge_kutta_dopri5< V , double , V , double , RA , DO , always_resizer > D2;
    typedef controlled_runge_kutta< D1 > C1;
    typedef controlled_runge_kutta< D2 , default_error_checker< double , RA , DO > , default_step_adjuster< double , double > , always_resizer > C2;
    Traits tp , tc; tc.controlled = true;
    switch( c.draw( 4 ) )
    {
    case 0 : initialize_run< D1 , FsalPlain >( c , tp , false , "runge_kutta_dopri5" ); break;
    case 1 : initialize_run< D2 , FsalPlain >( c , tp , true , "runge_kutta_dopri5/always_resizer" ); break;
    case 2 : initialize_run< C1 , FsalCtl >( c , tc , false , "controlled dopri5" ); break;
    default : initialize_run< C2 , FsalCtl >( c , tc , true , "controlled dopri5/always_resizer" ); break;
    }
    c.cover( "initialize-fsal" );
}

// ---------------------------------------------------------------- P13
SIM_SCENARIO( P13 , copies , 4 )
{
    const Entry &en = pick_machine( c , any );
    size_t n = draw_n( c , en.tr );
    Env e( c ) , e2( c ) , ej( c );
    Case k = draw_case( c , en.tr , n );
    Plan p = draw_plan( c , 3 + c.draw( 9 ) );
    MP a = fresh( en ) , b = fresh( en );
    fit( e , k ); fit( e2 , k );
    V xa = k.x0 , xb = k.x0; double ta = k.t0 , tb = ta , da = k.dt0 , db = da;
    a->begin( e , xa , ta , da ); b->begin( e2 , xb , tb , db );
    std::vector< MP > attic;
    for( size_t i = 0 ; i < p.use2.size() ; ++i )
    {
        if( c.chance( 350 ) )
        {
            switch( c.draw( 5 ) )
            {
            case 0 :    // continue with a copy, the source dies
            { MP q( b->clone() ); q->name = en.name; b.swap( q ); c.fault( "copy-then-destroy-source" ); break; }
            case 1 :    // continue with a copy, the source is used for something else
            { MP q( b->clone() ); q->name = en.name; b.swap( q ); attic.push_back( std::move( q ) ); c.fault( "copy-then-use-source" ); break; }
            case 2 :    // a copy is used for something else, the source continues
            { MP q( b->clone() ); q->name = en.name; attic.push_back( std::move( q ) ); c.fault( "copy-then-use-copy" ); break; }
            case 3 :    // assign to a stepper with another history
            {
                MP q = fresh( en );
                if( c.chance( 700 ) ) junk( c , *q , ej , en.tr.resizes ? draw_n( c , en.tr ) : n , false );
                q->assign( *b ); b.swap( q );
                if( c.chance( 500 ) ) attic.push_back( std::move( q ) );
                c.fault( "assign" ); break;
            }
            case 4 :    // self assignment
                b->assign( *b ); c.fault( "self-assign" ); break;
            }
            c.nontrivial();
        }
        if( !attic.empty() && c.chance( 500 ) )
        {
            Machine &q = *attic[ c.draw( attic.size() ) ];
            q.reset();
            junk( c , q , ej , n , false );
        }
        if( attic.size() > 2 ) attic.erase( attic.begin() );
        Point p0 = { xa , ta , da , true , 0 };
        bool ra = one( *a , e , p.use2[i] , xa , ta , da ) , rb = one( *b , e2 , p.use2[i] , xb , tb , db );
        Point qa = { xa , ta , da , ra , 0 } , qb = { xb , tb , db , rb , 0 };
        expect_same( c , "copy-differs" , en.name , qb , qa , i , "the stepper that was never copied" );
        expect_same_dense( c , "copy-differs" , *b , e2 , *a , e , p0 , qa );
    }
    c.elapse( ta - k.t0 );
}
