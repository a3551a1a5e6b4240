// Steppers of the library behind one simulated-world interface.
//
// A Machine owns one real stepper (on the heap, fresh memory poisoned).  Every call into
// the library runs with the fault plan of its Env armed: the n-th evaluation of the
// right-hand side throws, or the n-th allocation fails.
#ifndef VERIF_MACH_HPP
#define VERIF_MACH_HPP
#include "core.hpp"
#include "ref.hpp"
#include <boost/numeric/odeint.hpp>
#include <boost/range.hpp>
#include <memory>

namespace mach {
namespace ode = boost::numeric::odeint;
using sim::Ctx;
typedef std::vector< double > V;

// ---------------------------------------------------------------- the problem: a bounded, smooth, seeded right-hand side
struct Prob
{
    double a[8] , b[8] , w[8] , c[8];
    double stiff = 0;
    bool autonomous = false;
    void draw( Ctx &ctx )
    {
        for( int i = 0 ; i < 8 ; ++i )
        {
            a[i] = ctx.real( -1 , 1 ); b[i] = ctx.real( -1 , 1 ); w[i] = ctx.real( 0.2 , 2 ); c[i] = ctx.real( -0.8 , 0.3 );
        }
    }
    double f( size_t i , size_t n , double xi , double xj , double t ) const
    {
        size_t k = i % 8; (void)n;
        return a[k] * std::sin( xj ) + b[k] * std::cos( w[k] * t + 0.3 * xi ) + c[k] * xi - stiff * ( xi - std::cos( t ) );
    }
    void jac( size_t i , size_t n , double xi , double xj , double t , double &dii , double &dij , double &dt ) const
    {
        size_t k = i % 8; (void)n;
        dij = a[k] * std::cos( xj );
        dii = -0.3 * b[k] * std::sin( w[k] * t + 0.3 * xi ) + c[k] - stiff;
        dt = -b[k] * w[k] * std::sin( w[k] * t + 0.3 * xi ) - stiff * std::sin( t );
    }
    // force for the second order / Hamiltonian machines: potential sum 0.5 k q^2 - |a| cos(q)  (separable, so a gradient)
    double force( size_t i , double q ) const { size_t k = i % 8; return -w[k] * q - std::fabs( a[k] ) * std::sin( q ); }
    double potential( size_t i , double q ) const { size_t k = i % 8; return 0.5 * w[k] * q * q - std::fabs( a[k] ) * std::cos( q ); }
};

struct Env
{
    Ctx &c;
    Prob p;
    long calls = 0;             // evaluations since the last arm()
    long total = 0;
    long throw_at = -1;         // relative to arm()
    int fault_kind = 0;         // 0 std exception, 1 other type
    long alloc_at = -1;
    bool fired = false;
    size_t n = 0;               // expected system size
    void (*yield)( void * ) = 0; void *yield_arg = 0;
    bool expect_size = true;
    double spike = 0; long spike_from = 0 , spike_to = 0;   // disturbance: evaluations [from,to) return a distorted derivative
    double spiked() { if( total > spike_from && total <= spike_to ) { c.fault( "rhs-spike" ); return spike; } return 0; }
    explicit Env( Ctx &ctx ) : c( ctx ) { }

    void rhs_enter( size_t xs , size_t ds )
    {
        sim::Harness untracked;
        sim::AllocPause ap;
        c.tick(); ++total;
        if( expect_size && ( xs != n || ds != n ) )
            c.fail( "rhs-size" , "right-hand side called with a state of size %zu and a derivative of size %zu while the system has size %zu" , xs , ds , n );
        long k = calls++;
        if( yield ) yield( yield_arg );
        if( k == throw_at )
        {
            fired = true; c.fault( "rhs-throws" );
            if( fault_kind ) throw sim::SimFaultRaw{ 7 };
            throw sim::SimFault( 7 );
        }
    }
    void arm( long rhs , long alloc , int kind ) { throw_at = rhs; alloc_at = alloc; fault_kind = kind; }
    void disarm() { throw_at = -1; alloc_at = -1; }
};

// one guarded call into the library
struct Guard
{
    sim::AllocArm *arm; alignas( sim::AllocArm ) unsigned char buf[ sizeof( sim::AllocArm ) ];
    explicit Guard( Env &e ) : arm( 0 ) { e.calls = 0; e.fired = false; if( e.alloc_at >= 0 ) { arm = new( buf ) sim::AllocArm( e.alloc_at ); } }
    ~Guard() { if( arm ) { sim::AllocSeam::armed = false; sim::AllocSeam::fail_at = -1; } }
};

struct Sys
{
    Env *e;
    template< class X , class D > void operator()( const X &x , D &d , double t ) const
    {
        sim::Harness untracked;
        typename boost::range_iterator< const X >::type b = boost::begin( x ) , f = boost::end( x ) , it = b;
        size_t n = (size_t)std::distance( b , f );
        e->rhs_enter( n , (size_t)std::distance( boost::begin( d ) , boost::end( d ) ) );
        typename boost::range_iterator< D >::type o = boost::begin( d );
        size_t i = 0;
        double sp = e->spiked();
        for( ; it != f ; ++i )
        {
            if( sim::access_hook ) { sim::access_hook( &*it , sizeof( double ) , false ); sim::access_hook( &*o , sizeof( double ) , true ); }
            double xi = *it; ++it;
            double xj = it == f ? *b : *it;
            *o = e->p.f( i , n , xi , xj , t ) + ( i % 2 ? -sp : sp ); ++o;
        }
    }
    template< class X , class D > void operator()( const boost::iterator_range< X > &x , const boost::iterator_range< D > &d , double t ) const
    {
        (*this)( x , const_cast< boost::iterator_range< D > & >( d ) , t );
    }
};

inline ref::F ref_rhs( const Prob &p )
{
    return [&p]( const V &x , V &d , double t ) { size_t n = x.size(); for( size_t i = 0 ; i < n ; ++i ) d[i] = p.f( i , n , x[i] , x[( i + 1 ) % n] , t ); };
}

// ---------------------------------------------------------------- machines
struct Traits
{
    bool controlled = false , dense = false , multistep = false , fsal = false , pairs = false , stiff = false;
    bool has_reset = false;         // reset() (or re-initialisation) forgets the history
    bool resizes = false;           // always_resizer: the state size may change between calls
    bool restarts_on_resize = true; // no reset() needed after a change of size
    bool retry_ok = false;          // an exception leaves state, time and step size valid for the next try
    bool fixed_size = false; size_t fixed_n = 0;
    bool restarts_on_adjust = true; // no reset() needed after adjust_size() with another size
    const char *twin = 0;           // never_resizer machines: the machine that resizes itself
    int order = 1;
    bool needs_contiguous = false;  // has memory of the last step
};

struct Machine
{
    const char *name; Traits tr;
    virtual ~Machine() { }
    virtual Machine *clone() const = 0;
    virtual void assign( const Machine &o ) = 0;
    virtual void reset() { }
    // begin an integration at x,t with step size dt (dense output: initialize; others: nothing)
    virtual void begin( Env & , const V & , double , double ) { }
    // one natural step: do_step / try_step / dense do_step.  Returns true if the step was accepted.
    virtual bool step( Env &e , V &x , double &t , double &dt ) = 0;
    virtual void eval( Env & , double , V & ) { }
    // adjust_size() by hand; false: the stepper has none
    virtual bool adjust( Env & , const V & ) { return false; }
    // a new stepper with these tolerances and step size limit (0: none); false: not configurable
    virtual bool configure( double , double ) { return false; }
    // a second way to do the same thing (other overload); default: the same
    virtual bool step2( Env &e , V &x , double &t , double &dt ) { return step( e , x , t , dt ); }
};

typedef Machine *(*Factory)();
struct Entry { const char *name; Factory make; Traits tr; };
std::vector< Entry > &machines();
std::vector< Entry > &manual_machines();    // never_resizer: only used with adjust_size()
struct Reg { Reg( const char *n , Factory f ) { std::unique_ptr< Machine > m( f() ); Entry e = { n , f , m->tr }; machines().push_back( e ); } };

template< class S > struct Assign { static void go( std::unique_ptr< S > &a , const std::unique_ptr< S > &b ) { *a = *b; } };
template< class S > struct Replace { static void go( std::unique_ptr< S > &a , const std::unique_ptr< S > &b ) { a.reset( new S( *b ) ); } };   // not assignable

template< class M , class S , template< class > class A = Assign > struct MachineBase : Machine
{
    std::unique_ptr< S > s;
    explicit MachineBase( S *p ) : s( p ) { }
    MachineBase( const MachineBase &o ) : Machine( o ) , s( new S( *o.s ) ) { }
    Machine *clone() const { return new M( static_cast< const M & >( *this ) ); }
    void assign( const Machine &o ) { A< S >::go( s , static_cast< const MachineBase & >( o ).s ); }
    static const V &conv( const V &x ) { return x; }
    template< class T , class X > static auto adj( T &t , const X &x , int ) -> decltype( t.adjust_size( x ) , bool() ) { t.adjust_size( x ); return true; }
    template< class T , class X > static bool adj( T & , const X & , long ) { return false; }
    bool adjust( Env &e , const V &x ) { const auto &y = M::conv( x ); Guard g( e ); return adj( *s , y , 0 ); }
};
template< class M > Machine *make() { return new M; }
struct RegManual { RegManual( const char *n , const char *twin , Factory f ) { std::unique_ptr< Machine > m( f() ); Entry e = { n , f , m->tr }; e.tr.twin = twin; manual_machines().push_back( e ); } };
#define MANUAL( M , name ) static mach::RegManual SIM_CAT( mreg_ , __COUNTER__ )( name "/never_resizer" , name , &mach::make< M > )
#define MACHINE( M , name ) static mach::Reg SIM_CAT( mreg_ , __COUNTER__ )( name , &mach::make< M > )

} // namespace mach
#endif
