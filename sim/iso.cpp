// P14: steppers, integrations and ranges used at the same time do not influence each other.
// Simulated threads (preempted at any memory access, races detected) and nested use in one thread.
#include "mach.hpp"
#include "conc.hpp"
#include <boost/numeric/odeint/iterator/times_iterator.hpp>
using namespace mach;
namespace {
typedef std::vector< double > H;        // recorded history of one task

struct Work
{
    int kind = 0;                       // 0: a machine, >0: a driver
    const Entry *e = 0; const Machine *proto = 0;
    Prob p; V x0; double t0 , dt0; size_t n; int steps; std::vector< char > use2; std::vector< double > at;
    long throw_at = -1;
    double eps;
};

void put( H &h , const V &x ) { h.insert( h.end() , x.begin() , x.end() ); }

void run_machine( Ctx &c , const Work &w , H &h , void (*yield)( void * ) , void *arg , sim::u64 *calls )
{
    std::unique_ptr< Machine > m( w.proto ? w.proto->clone() : w.e->make() );
    Env e( c ); e.p = w.p; e.n = w.n; e.yield = yield; e.yield_arg = arg;
    V x = w.x0 , y( w.n ); double t = w.t0 , dt = w.dt0;
    m->begin( e , x , t , dt );
    for( int i = 0 ; i < w.steps ; ++i )
    {
        double told = t;
        if( w.throw_at >= 0 && i == 1 )
        {
            e.arm( w.throw_at , -1 , 0 );
            try { m->step( e , x , t , dt ); } catch( const sim::SimFault & ) { h.push_back( 99 ); }
            e.disarm();
            if( e.fired && !w.e->tr.retry_ok ) { x = w.x0; t = w.t0; dt = w.dt0; m->reset(); m->begin( e , x , t , dt ); continue; }
        }
        bool r = w.use2[i] ? m->step2( e , x , t , dt ) : m->step( e , x , t , dt );
        h.push_back( r ); h.push_back( t ); h.push_back( dt ); put( h , x );
        if( w.e->tr.dense ) { m->eval( e , told + w.at[i] * ( t - told ) , y ); put( h , y ); }
    }
    *calls = (sim::u64)e.total;
}

struct Obs
{
    H *h;
    template< class X > void operator()( const X &x , double t ) const { h->push_back( t ); h->insert( h->end() , x.begin() , x.end() ); }
};
const int DRIVERS = 9;
void run_driver( Ctx &c , const Work &w , H &h , void (*yield)( void * ) , void *arg , sim::u64 *calls )
{
    Env e( c ); e.p = w.p; e.n = w.n; e.yield = yield; e.yield_arg = arg;
    Sys f{ &e }; V x = w.x0; Obs o{ &h };
    double dt = w.dt0 , end = w.t0 + dt * ( w.steps + 0.3 );
    std::vector< double > times; for( int i = 0 ; i <= w.steps ; ++i ) times.push_back( w.t0 + dt * ( i + ( i ? 0.4 * w.at[i] : 0 ) ) );
    switch( w.kind )
    {
        case 1: h.push_back( ode::integrate_const( ode::runge_kutta4< V >() , f , x , w.t0 , end , dt , o ) ); break;
        case 2: h.push_back( ode::integrate_adaptive( ode::make_controlled< ode::runge_kutta_dopri5< V > >( w.eps , w.eps ) , f , x , w.t0 , end , dt , o ) ); break;
        case 3: h.push_back( ode::integrate_const( ode::make_dense_output< ode::runge_kutta_dopri5< V > >( w.eps , w.eps ) , f , x , w.t0 , end , dt , o ) ); break;
        case 4: h.push_back( ode::integrate_times( ode::make_controlled< ode::runge_kutta_fehlberg78< V > >( w.eps , w.eps ) , f , x , times.begin() , times.end() , dt , o ) ); break;
        case 5: h.push_back( ode::integrate_n_steps( ode::adams_bashforth_moulton< 4 , V >() , f , x , w.t0 , dt , (size_t)w.steps + 4 , o ) ); break;
        case 6: { ode::runge_kutta_cash_karp54< V > s; auto r = ode::make_const_step_time_range( s , f , x , w.t0 , end , dt ); for( auto i = r.first ; i != r.second ; ++i ) { h.push_back( (*i).second ); put( h , (*i).first ); } break; }
        case 7: { auto r = ode::make_adaptive_time_range( ode::make_dense_output< ode::runge_kutta_dopri5< V > >( w.eps , w.eps ) , f , x , w.t0 , end , dt ); for( auto i = r.first ; i != r.second ; ++i ) { h.push_back( (*i).second ); put( h , (*i).first ); } break; }
        case 8: { auto r = ode::make_times_range( ode::make_controlled< ode::runge_kutta_cash_karp54< V > >( w.eps , w.eps ) , f , x , times.begin() , times.end() , dt ); for( auto i = r.first ; i != r.second ; ++i ) put( h , *i ); break; }
        default: h.push_back( ode::integrate( f , x , w.t0 , end , dt , o ) ); break;
    }
    put( h , x );
    *calls = (sim::u64)e.total;
}
void run_work( Ctx &c , const Work &w , H &h , void (*yield)( void * ) , void *arg , sim::u64 *calls )
{ if( w.kind ) run_driver( c , w , h , yield , arg , calls ); else run_machine( c , w , h , yield , arg , calls ); }

void draw_work( Ctx &c , Work &w , const Work *like )
{
    w.p.draw( c ); w.eps = std::pow( 10. , -c.real( 3 , 8 ) );
    if( like && c.chance( 600 ) ) { w.kind = like->kind; w.e = like->e; }
    else if( c.chance( 250 ) ) w.kind = 1 + (int)c.draw( DRIVERS );
    else { w.kind = 0; w.e = &machines()[ c.draw( machines().size() ) ]; }
    w.n = 1 + c.draw( 4 ); w.dt0 = c.real( 0.03 , 0.3 ) * ( c.chance( 300 ) ? -1 : 1 ); w.t0 = c.chance( 500 ) ? 0 : c.real( -3 , 3 );
    w.steps = 2 + (int)c.draw( 4 );
    if( w.kind == 0 )
    {
        const Traits &tr = w.e->tr;
        if( tr.pairs ) w.n *= 2;
        if( tr.fixed_size ) w.n = tr.fixed_n;
        if( tr.stiff ) { w.dt0 = std::fabs( w.dt0 ); w.p.stiff = c.chance( 500 ) ? c.real( 1 , 20 ) : 0; }
        if( tr.multistep ) w.steps += 8;
        if( ( tr.has_reset || tr.retry_ok ) && c.chance( 150 ) ) w.throw_at = (long)c.draw( 4 );
        c.note( "stepper %s" , w.e->name ); c.cover( w.e->name );
    }
    else { c.note( "driver %d" , w.kind ); c.cover( "driver or range" ); }
    w.x0.resize( w.n ); for( double &v : w.x0 ) v = c.real( -1.5 , 1.5 );
    for( int i = 0 ; i <= w.steps + 1 ; ++i ) { w.use2.push_back( c.chance( 300 ) ); w.at.push_back( c.unit() ); }
}
void compare( Ctx &c , const Work &w , const H &a , const H &b , const char *how , size_t who )
{
    c.logvec( "history" , b );
    const char *nm = w.kind ? "integration" : w.e->name;
    if( a.size() != b.size() ) c.fail( "other-history" , "%s %zu %s: a history of %zu values, alone it has %zu" , nm , who , how , b.size() , a.size() );
    for( size_t i = 0 ; i < a.size() ; ++i )
        if( !sim::same_bits( a[i] , b[i] ) ) c.fail( "other-result" , "%s %zu %s: value %zu of its history is %.17g, alone it is %.17g" , nm , who , how , i , b[i] , a[i] );
}
} // namespace

SIM_SCENARIO( P14 , threads , 3 )
{
    size_t k = 2 + c.draw( 2 );
    conc::Config cfg;
    static const unsigned grains[] = { 60 , 600 , 5 , 4000 , 0 };
    cfg.grain = grains[ c.draw( 5 ) ];
    bool byrhs = cfg.grain == 0 || c.chance( 300 );
    if( c.chance( 200 ) ) { cfg.straggler = 1 + (unsigned)c.draw( k ); c.fault( "stalled-thread" ); }
    std::vector< Work > w( k );
    std::vector< std::unique_ptr< Machine > > protos;
    for( size_t i = 0 ; i < k ; ++i )
    {
        draw_work( c , w[i] , i ? &w[ c.draw( i ) ] : 0 );
        // copies of one stepper object, made in the threads
        if( i && w[i].kind == 0 && w[i].e == w[0].e && c.chance( 500 ) )
        {
            if( protos.empty() ) protos.push_back( std::unique_ptr< Machine >( w[i].e->make() ) );
            w[i].proto = w[0].proto = protos[0].get(); c.cover( "copies of one stepper" );
        }
    }
    std::vector< H > alone( k ) , together( k );
    std::vector< sim::u64 > calls( k ) , calls2( k );
    for( size_t i = 0 ; i < k ; ++i ) run_work( c , w[i] , alone[i] , 0 , 0 , &calls[i] );
    conc::begin( c , cfg );
    std::vector< std::function< void() > > tasks;
    for( size_t i = 0 ; i < k ; ++i ) tasks.push_back( [&,i] { run_work( c , w[i] , together[i] , byrhs ? []( void * ) { conc::yield(); } : (void (*)( void * ))0 , 0 , &calls2[i] ); } );
    try { conc::threads( tasks ); } catch( ... ) { conc::end(); throw; }
    conc::end();
    if( conc::stats.switches > k ) c.nontrivial();
    for( sim::u64 i = 0 ; i < conc::stats.switches ; i += 16 ) c.cover( "16 thread switches" );
    for( size_t i = 0 ; i < k ; ++i )
    {
        c.elapse( w[i].steps * w[i].dt0 );
        compare( c , w[i] , alone[i] , together[i] , "in its own thread" , i );
        if( calls[i] != calls2[i] ) c.fail( "other-calls" , "task %zu evaluates its right-hand side %llu times, alone %llu times" , i , (unsigned long long)calls2[i] , (unsigned long long)calls[i] );
    }
}

// one integration makes progress inside the right-hand side of the other, in the same thread
namespace {
struct Inner
{
    Ctx *c; const Work *w; H h; std::unique_ptr< Machine > m; Env e; V x , y; double t , dt; int i = 0 , depth = 0; std::vector< char > when; size_t pos = 0; bool whole; H first; sim::u64 calls = 0; int wholes = 0;
    Inner( Ctx &ctx , const Work &wk ) : c( &ctx ) , w( &wk ) , e( ctx ) { }
    void start() { if( w->kind ) return; m.reset( w->e->make() ); e.p = w->p; e.n = w->n; x = w->x0; y.resize( w->n ); t = w->t0; dt = w->dt0; m->begin( e , x , t , dt ); }
    void step()
    {
        double told = t;
        bool r = w->use2[i] ? m->step2( e , x , t , dt ) : m->step( e , x , t , dt );
        h.push_back( r ); h.push_back( t ); h.push_back( dt ); put( h , x );
        if( w->e->tr.dense ) { m->eval( e , told + w->at[i] * ( t - told ) , y ); put( h , y ); }
        ++i;
    }
    static void hook( void *a )
    {
        Inner &n = *(Inner *)a;
        if( n.depth ) return;
        ++n.depth;
        if( n.pos < n.when.size() && n.when[ n.pos++ ] )
        {
            if( n.w->kind ) { if( n.wholes++ < 2 ) { n.h.clear(); run_work( *n.c , *n.w , n.h , 0 , 0 , &n.calls ); compare( *n.c , *n.w , n.first , n.h , "inside a right-hand side" , 0 ); } }
            else if( n.i < n.w->steps ) n.step();
        }
        --n.depth;
    }
};
}
SIM_SCENARIO( P14 , nested , 1 )
{
    Work out , in;
    draw_work( c , out , 0 ); draw_work( c , in , &out );
    in.throw_at = -1;
    H a , b; sim::u64 ca = 0 , cb = 0 , ci = 0;
    run_work( c , out , a , 0 , 0 , &ca );
    Inner n( c , in );
    run_work( c , in , n.first , 0 , 0 , &ci );
    n.start();
    for( int i = 0 ; i < 60 ; ++i ) n.when.push_back( c.chance( 400 ) );
    run_work( c , out , b , &Inner::hook , &n , &cb );
    compare( c , out , a , b , "with another integration inside its right-hand side" , 0 );
    if( ca != cb ) c.fail( "other-calls" , "the outer integration evaluates its right-hand side %llu times, alone %llu times" , (unsigned long long)cb , (unsigned long long)ca );
    if( in.kind == 0 )
    {
        if( n.i > 1 ) c.nontrivial();
        while( n.i < in.steps ) n.step();
        compare( c , in , n.first , n.h , "inside the right-hand side of another integration" , 1 );
    }
    else if( n.wholes ) c.nontrivial();
    c.elapse( out.steps * out.dt0 );
}
