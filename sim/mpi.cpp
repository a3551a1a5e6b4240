// P18: integration of a state distributed over MPI ranks, on simulated ranks and a simulated network.
#include "core.hpp"
#include "conc.hpp"
#include <boost/mpi.hpp>
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/external/mpi/mpi.hpp>
namespace ode = boost::numeric::odeint;
namespace mpi = boost::mpi;
using sim::Ctx;
namespace {
typedef std::vector< double > V;
typedef ode::mpi_state< V > M;
typedef std::vector< double > H;

double f1( size_t i , double x , double y , double t , const double *k ) { return k[0] * std::sin( y + 0.1 * (double)( i % 7 ) ) + k[1] * std::cos( k[2] * t ) - 0.5 * x; }
struct Serial
{
    const double *k; long *calls;
    void operator()( const V &x , V &d , double t ) const { ++*calls; size_t n = x.size(); for( size_t i = 0 ; i < n ; ++i ) d[i] = f1( i , x[i] , x[ ( i + 1 ) % n ] , t , k ); }
};
struct Dist     // coupled: every evaluation exchanges the pieces
{
    const double *k; long *calls; bool coupled; mpi::communicator comm; size_t first;
    void operator()( const M &x , M &d , double t ) const
    {
        ++*calls;
        if( d().size() != x().size() ) throw std::runtime_error( "derivative has another size" );
        std::vector< V > all; mpi::all_gather( comm , x() , all );
        V g; for( auto &p : all ) g.insert( g.end() , p.begin() , p.end() );
        size_t n = g.size() , o = 0; for( int r = 0 ; r < comm.rank() ; ++r ) o += all[r].size();
        for( size_t i = 0 ; i < x().size() ; ++i ) d()[i] = f1( o + i , g[o+i] , g[ ( o + i + 1 ) % n ] , t , k );
    }
};
const V &loc( const V &x ) { return x; }
const V &loc( const M &x ) { return x(); }
struct Plan { double k[3] , t0 , dt , eps , at; int steps; int kind; };
struct Tr { H times; std::vector< V > xs; template< class X > void put( const X &x ) { xs.push_back( loc( x ) ); } };
struct Obs { Tr *h; template< class X > void operator()( const X &x , double t ) const { h->times.push_back( t ); h->put( x ); } };

template< class S , class F , class X > void drive( S &s , F f , const Plan &p , X x , Tr &h , ode::stepper_tag ) { double t = p.t0; for( int i = 0 ; i < p.steps ; ++i ) { s.do_step( f , x , t , p.dt ); t += p.dt; h.put( x ); } }
template< class S , class F , class X > void drive( S &s , F f , const Plan &p , X x , Tr &h , ode::error_stepper_tag ) { drive( s , f , p , x , h , ode::stepper_tag() ); }
template< class S , class F , class X > void drive( S &s , F f , const Plan &p , X x , Tr &h , ode::explicit_error_stepper_fsal_tag ) { drive( s , f , p , x , h , ode::stepper_tag() ); }
template< class S , class F , class X > void drive( S &s , F f , const Plan &p , X x , Tr &h , ode::controlled_stepper_tag )
{ double t = p.t0 , dt = p.dt; for( int i = 0 ; i < p.steps ; ++i ) { bool r = s.try_step( f , x , t , dt ) == ode::success; h.times.push_back( r ); h.times.push_back( t ); h.times.push_back( dt ); h.put( x ); } }
template< class S , class F , class X > void drive( S &s , F f , const Plan &p , X x , Tr &h , ode::dense_output_stepper_tag )
{
    s.initialize( x , p.t0 , p.dt ); X y = x;
    for( int i = 0 ; i < p.steps ; ++i ) { std::pair< double , double > w = s.do_step( f ); h.times.push_back( w.first ); h.times.push_back( w.second ); h.put( s.current_state() ); s.calc_state( w.first + p.at * ( w.second - w.first ) , y ); h.put( y ); }
}
template< class S > auto fresh( S &s , int ) -> decltype( s.reset() , void() ) { s.reset(); }
template< class S > void fresh( S & , long ) { }
template< class S , class F , class X > void both( S s , F f , const Plan &p , const std::vector< X > &xs , Tr &h ) { for( const X &x : xs ) { drive( s , f , p , x , h , typename S::stepper_category() ); fresh( s , 0 ); } }
const int KINDS = 16;
template< class X , class F > void run( const Plan &p , F f , const std::vector< X > &xs , Tr &h )
{
    using namespace ode;
    typedef typename algebra_dispatcher< X >::algebra_type A; typedef default_operations D; typedef always_resizer R;
    switch( p.kind )
    {
        case 0: both( euler< X , double , X , double , A , D , R >() , f , p , xs , h ); break;
        case 1: both( runge_kutta4< X , double , X , double , A , D , R >() , f , p , xs , h ); break;
        case 2: both( runge_kutta_cash_karp54< X , double , X , double , A , D , R >() , f , p , xs , h ); break;
        case 3: both( runge_kutta_fehlberg78< X , double , X , double , A , D , R >() , f , p , xs , h ); break;
        case 4: both( runge_kutta_dopri5< X , double , X , double , A , D , R >() , f , p , xs , h ); break;
        case 5: both( make_controlled< runge_kutta_cash_karp54< X , double , X , double , A , D , R > >( p.eps , p.eps ) , f , p , xs , h ); break;
        case 6: both( make_controlled< runge_kutta_dopri5< X , double , X , double , A , D , R > >( p.eps , p.eps ) , f , p , xs , h ); break;
        case 7: both( make_dense_output< runge_kutta_dopri5< X , double , X , double , A , D , R > >( p.eps , p.eps ) , f , p , xs , h ); break;
        case 8: both( bulirsch_stoer< X , double , X , double , A , D , R >( p.eps , p.eps ) , f , p , xs , h ); break;
        case 9: both( bulirsch_stoer_dense_out< X , double , X , double , A , D , R >( p.eps , p.eps ) , f , p , xs , h ); break;
        case 10: { adams_bashforth< 3 , X , double , X , double , A , D , R > s; for( const X &x : xs ) { s.reset(); drive( s , f , p , x , h , stepper_tag() ); } break; }
        case 11: { adams_bashforth_moulton< 4 , X , double , X , double , A , D , R > s; for( const X &x : xs ) { s.reset(); drive( s , f , p , x , h , stepper_tag() ); } break; }
        // default steppers (initially_resizer) through the integrate functions
        case 12: { X x = xs[0]; h.times.push_back( integrate_adaptive( make_controlled< runge_kutta_dopri5< X > >( p.eps , p.eps ) , f , x , p.t0 , p.t0 + p.steps * p.dt , p.dt , Obs{ &h } ) ); h.put( x ); break; }
        case 13: { X x = xs[0]; h.times.push_back( integrate_const( runge_kutta4< X >() , f , x , p.t0 , p.t0 + ( p.steps + 0.3 ) * p.dt , p.dt , Obs{ &h } ) ); h.put( x ); break; }
        case 14: { X x = xs[0]; h.times.push_back( integrate_const( make_dense_output< runge_kutta_dopri5< X > >( p.eps , p.eps ) , f , x , p.t0 , p.t0 + ( p.steps + 0.3 ) * p.dt , p.dt , Obs{ &h } ) ); h.put( x ); break; }
        case 15: { X x = xs[0]; runge_kutta_fehlberg78< X > s; double t = p.t0; for( int i = 0 ; i < p.steps ; ++i ) { s.do_step( f , x , t , p.dt ); t += p.dt; h.put( x ); } break; }
    }
}
Plan draw_plan( Ctx &c )
{
    Plan p; p.k[0] = c.real( -1 , 1 ); p.k[1] = c.real( -1 , 1 ); p.k[2] = c.real( 0.3 , 2 );
    p.t0 = c.chance( 500 ) ? 0 : c.real( -2 , 2 ); p.dt = c.real( 0.02 , 0.4 ) * ( c.chance( 300 ) ? -1 : 1 ); p.eps = std::pow( 10. , -c.real( 3 , 9 ) ); p.at = c.unit();
    p.steps = 2 + (int)c.draw( 4 ); p.kind = (int)c.draw( KINDS );
    c.note( "stepper %d" , p.kind );
    return p;
}
V draw_x( Ctx &c , size_t n ) { V x( n ); for( double &v : x ) v = c.real( -1.5 , 1.5 ); return x; }
struct Net
{
    Ctx &c;
    Net( Ctx &ctx , int ranks ) : c( ctx )
    {
        conc::Config g; g.grain = 0; g.races = false;
        if( c.chance( 300 ) ) { g.straggler = 1 + (unsigned)c.draw( (sim::u64)ranks ); c.fault( "stalled-rank" ); }
        conc::begin( c , g );
        static const unsigned delays[] = { 6 , 0 , 40 , 2 };
        simmpi::start( c , ranks , delays[ c.draw( 4 ) ] , c.chance( 700 ) );
    }
    ~Net()
    {
        simmpi::World &w = simmpi::the();
        for( sim::u64 i = 0 ; i < w.delayed ; ++i ) c.fault( "message-delayed" );
        for( sim::u64 i = 0 ; i < w.early ; ++i ) c.cover( "rank left a collective early" );
        if( w.collectives > 4 ) c.nontrivial();
        w = simmpi::World(); conc::end();
    }
};
template< class F > void ranks( int n , F f ) { std::vector< std::function< void() > > t; for( int i = 0 ; i < n ; ++i ) t.push_back( [f,i] { f( i ); } ); conc::threads( t ); }

struct Job          // one distributed integration and its serial counterpart
{
    Plan p; std::vector< V > xs; int R; Tr want; long calls = 0 , ref_calls = 0; std::vector< Tr > got; std::vector< long > rcalls; std::vector< V > back;
    void draw( Ctx &c , int r )
    {
        R = r; p = draw_plan( c ); size_t m = 1 + c.draw( 2 );
        for( size_t i = 0 ; i < m ; ++i ) { size_t n = 1 + c.draw( 12 ); if( c.chance( 200 ) ) n = 13 + c.draw( 30 ); xs.push_back( draw_x( c , n ) ); }
        run( p , Serial{ p.k , &ref_calls } , xs , want );
        got.resize( R ); rcalls.assign( R , 0 ); back.resize( xs.size() );
    }
    void work( mpi::communicator comm )        // on each rank
    {
        int me = comm.rank();
        std::vector< M > ms;
        for( size_t i = 0 ; i < xs.size() ; ++i ) { M m( comm ); V root; if( me == 0 ) root = xs[i]; ode::split( root , m ); ms.push_back( m ); }
        run( p , Dist{ p.k , &rcalls[ me ] , true , comm , 0 } , ms , got[ me ] );
        for( size_t i = 0 ; i < xs.size() ; ++i ) { V b; if( me == 0 ) b.assign( xs[i].size() , -9 ); ode::unsplit( ms[i] , b ); if( me == 0 ) back[i] = b; }
    }
    void check( Ctx &c , const char *where )
    {
        c.elapse( p.steps * p.dt );
        for( size_t i = 0 ; i < xs.size() ; ++i ) if( back[i] != xs[i] ) c.fail( "split" , "%s: unsplit( split( x ) ) on %d ranks is not x" , where , R );
        for( int r = 0 ; r < R ; ++r )
        {
            c.logvec( "times" , got[r].times );
            if( rcalls[r] != ref_calls ) c.fail( "other-calls" , "%s: rank %d of %d evaluates the right-hand side %ld times, one rank alone %ld times (stepper %d)" , where , r , R , rcalls[r] , ref_calls , p.kind );
            if( got[r].times.size() != want.times.size() || got[r].xs.size() != want.xs.size() ) c.fail( "other-history" , "%s: rank %d of %d has a history of another length (stepper %d)" , where , r , R , p.kind );
            for( size_t i = 0 ; i < want.times.size() ; ++i ) if( !( std::fabs( got[r].times[i] - want.times[i] ) <= 1e-11 * ( 1 + std::fabs( want.times[i] ) ) ) )
                c.fail( "other-decision" , "%s: rank %d of %d: decision or time %zu is %.17g, with one rank %.17g (stepper %d)" , where , r , R , i , got[r].times[i] , want.times[i] , p.kind );
        }
        for( size_t i = 0 ; i < want.xs.size() ; ++i )
        {
            V all; for( int r = 0 ; r < R ; ++r ) all.insert( all.end() , got[r].xs[i].begin() , got[r].xs[i].end() );
            c.logvec( "x" , all );
            if( all.size() != want.xs[i].size() ) c.fail( "other-size" , "%s: %zu elements on %d ranks, %zu expected (stepper %d)" , where , all.size() , R , want.xs[i].size() , p.kind );
            for( size_t k = 0 ; k < all.size() ; ++k ) if( !( std::fabs( all[k] - want.xs[i][k] ) <= 1e-11 * ( 1 + std::fabs( want.xs[i][k] ) ) ) )
                c.fail( "other-result" , "%s: %d ranks: element %zu of state %zu is %.17g, with one rank %.17g (stepper %d)" , where , R , k , i , all[k] , want.xs[i][k] , p.kind );
        }
    }
};
} // namespace

SIM_SCENARIO( P18 , whole_world , 3 )
{
    int R = 1 + (int)c.draw( 6 ); Job j; j.draw( c , R );
    { Net net( c , R ); ranks( R , [&j]( int ) { j.work( mpi::communicator() ); } ); }
    j.check( c , "world" );
}
// the communicator is split: every part integrates its own problem, some parts may do nothing
SIM_SCENARIO( P18 , sub_communicators , 2 )
{
    int R = 2 + (int)c.draw( 6 ) , parts = 1 + (int)c.draw( 3 );
    std::vector< int > color( R ); for( int &x : color ) x = (int)c.draw( (sim::u64)parts );
    std::vector< Job > jobs( parts ); std::vector< char > idle( parts );
    for( int k = 0 ; k < parts ; ++k )
    {
        int n = (int)std::count( color.begin() , color.end() , k ); idle[k] = n == 0 || c.chance( 200 );
        if( !idle[k] ) jobs[k].draw( c , n );
    }
    {
        Net net( c , R );
        ranks( R , [&]( int r ) { mpi::communicator sub = mpi::communicator().split( color[r] ); if( !idle[ color[r] ] ) jobs[ color[r] ].work( sub ); } );
    }
    for( int k = 0 ; k < parts ; ++k ) if( !idle[k] ) jobs[k].check( c , "part of the world" );
}
// split, unsplit, same_size, resize, copy and the norm themselves
SIM_SCENARIO( P18 , distribution , 2 )
{
    int R = 1 + (int)c.draw( 7 ); size_t n = c.draw( 20 ); V x = draw_x( c , n );
    double want = 0; for( double v : x ) want = std::max( want , std::fabs( v ) );
    V back; std::vector< V > pieces( R ) , copies( R ); std::vector< char > same( R ) , same2( R ); std::vector< double > norm( R );
    int odd = (int)c.draw( (sim::u64)R );
    {
        Net net( c , R );
        ranks( R , [&]( int r )
        {
            mpi::communicator w; M m( w ) , m2( w );
            V root; if( r == 0 ) root = x;
            ode::split( root , m ); pieces[r] = m();
            norm[r] = ode::algebra_dispatcher< M >::algebra_type::norm_inf( m );
            ode::resize( m2 , m ); same[r] = ode::same_size( m2 , m );
            ode::copy( m , m2 ); copies[r] = m2();
            M m3( m ); if( r == odd ) m3().push_back( 1 );
            same2[r] = ode::same_size( m3 , m );
            V b; if( r == 0 ) b.assign( n , -9 );
            ode::unsplit( m2 , b ); if( r == 0 ) back = b;
        } );
    }
    c.logvec( "back" , back );
    V all; for( auto &p : pieces ) all.insert( all.end() , p.begin() , p.end() );
    if( all != x ) c.fail( "split" , "the pieces of %zu elements on %d ranks are not the elements" , n , R );
    for( auto &p : pieces ) if( p.size() != n / R && p.size() != n / R + 1 ) c.fail( "split-balance" , "a piece of %zu elements for %zu elements on %d ranks" , p.size() , n , R );
    if( back != x ) c.fail( "unsplit" , "unsplit( split( x ) ) is not x for %zu elements on %d ranks" , n , R );
    for( int r = 0 ; r < R ; ++r )
    {
        if( norm[r] != want ) c.fail( "norm" , "norm_inf on rank %d of %d is %.17g, expected %.17g" , r , R , norm[r] , want );
        if( !same[r] ) c.fail( "resize" , "same_size after resize is false on rank %d" , r );
        if( same2[r] ) c.fail( "same-size" , "same_size on rank %d is true although the sizes on rank %d differ" , r , odd );
        if( copies[r] != pieces[r] ) c.fail( "copy" , "the copy on rank %d differs" , r );
    }
}
