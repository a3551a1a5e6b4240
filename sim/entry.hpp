// P22: call forms of the integrate functions.  One integration is described by a Job; every form of the call must
// leave the same history behind.
#ifndef VERIF_ENTRY_HPP
#define VERIF_ENTRY_HPP
#include "mach.hpp"
#include <list>
namespace entry {
using namespace mach;

struct Job
{
    int driver;                 // 0 const, 1 n_steps, 2 adaptive, 3 times
    double t0 , t1 , dt; size_t n; V x0; std::vector< double > times;
    long rhs_throws = -1 , obs_throws = -1; int kind = 0;
    int prefix = 0;             // steps the stepper made before
};

struct Log
{
    std::vector< double > seen;         // observations: t, x...
    std::vector< double > ret;          // returned value
    V x;                                // state afterwards
    std::vector< double > after;        // two steps with the stepper of the caller afterwards
    int thrown = 0;                     // 1 the right-hand side, 2 the observer
    bool observes = true , ranged = false;
    long evals = 0 , calls = 0;
};

struct ObsFault { int v; };
struct Obs
{
    Log *l; const Job *j; long own = 0;
    template< class X > void operator()( const X &x , double t )
    {
        sim::Harness untracked;
        ++own;
        if( l->calls++ == j->obs_throws ) throw ObsFault{ 5 };
        l->seen.push_back( t );
        for( auto i = boost::begin( x ) ; i != boost::end( x ) ; ++i ) l->seen.push_back( *i );
    }
};
struct CObs { Obs *o; template< class X > void operator()( const X &x , double t ) const { ( *o )( x , t ); } };

inline bool same_values( const std::vector< double > &a , const std::vector< double > &b )
{
    if( a.size() != b.size() ) return false;
    for( size_t i = 0 ; i < a.size() ; ++i ) if( a[i] != b[i] && !( a[i] != a[i] && b[i] != b[i] ) ) return false;
    return true;
}

extern Env *fp_env;
extern Obs *fp_obs;
void fp_sys( const V &x , V &d , double t );
void fp_obs_call( const V &x , double t );

enum Form { F_PLAIN = 0 , F_STEPPER_STDREF , F_STEPPER_BOOSTREF , F_SYSTEM_STDREF , F_SYSTEM_BOOSTREF , F_SYSTEM_POINTER , F_SYSTEM_LAMBDA , F_OBS_STDREF , F_OBS_BOOSTREF ,
            F_OBS_POINTER , F_OBS_CONST , F_OBS_NONE , F_OBS_NULL , F_COLLECTION , F_CHECKER , F_CHECKER_REF , F_CHECKER_ALL_REF , F_TIMES_RANGE , F_TIMES_LIST , F_STATE_RANGE , F_COUNT };
extern const char *form_name[ F_COUNT ];

// the four drivers, called with whatever wraps stepper, system, state and observer
template< class S , class F , class X , class O > static double call( const Job &j , S s , F f , X &x , O o )
{
    switch( j.driver )
    {
    case 0 : return (double)ode::integrate_const( s , f , x , j.t0 , j.t1 , j.dt , o );
    case 1 : return ode::integrate_n_steps( s , f , x , j.t0 , j.dt , j.n , o );
    case 2 : return (double)ode::integrate_adaptive( s , f , x , j.t0 , j.t1 , j.dt , o );
    default : return (double)ode::integrate_times( s , f , x , j.times.begin() , j.times.end() , j.dt , o );
    }
}
template< class S , class F , class O , class C > static double call_checked( const Job &j , S s , F f , V &x , O o , C c )
{
    switch( j.driver )
    {
    case 0 : return (double)ode::integrate_const( s , f , x , j.t0 , j.t1 , j.dt , o , c );
    case 1 : return ode::integrate_n_steps( s , f , x , j.t0 , j.dt , j.n , o , c );
    case 2 : return (double)ode::integrate_adaptive( s , f , x , j.t0 , j.t1 , j.dt , o );
    default : return (double)ode::integrate_times( s , f , x , j.times.begin() , j.times.end() , j.dt , o , c );
    }
}
template< class S > static double call_unobserved( const Job &j , S s , Sys f , V &x )
{
    switch( j.driver )
    {
    case 0 : return (double)ode::integrate_const( s , f , x , j.t0 , j.t1 , j.dt );
    case 1 : return ode::integrate_n_steps( s , f , x , j.t0 , j.dt , j.n );
    case 2 : return (double)ode::integrate_adaptive( s , f , x , j.t0 , j.t1 , j.dt );
    default : return (double)ode::integrate_times( s , f , x , j.times.begin() , j.times.end() , j.dt , ode::null_observer() );
    }
}

// one integration in one form.  Steps before and after are made directly, to see what happened to the stepper.
template< class T > struct Runner
{
    typedef typename T::type S;
    static void direct( Env &e , S &s , V &x , double &t , double &dt , std::vector< double > *h )
    {
        T::step( s , Sys{ &e } , x , t , dt );
        if( h ) { h->push_back( t ); h->push_back( dt ); h->insert( h->end() , x.begin() , x.end() ); }
    }
    static Log run( Ctx &c , const Prob &p , const Job &job , int form , bool by_ref_expected )
    {
        Job j = job;
        Log l; Env e( c ); e.p = p; e.n = j.x0.size();
        std::unique_ptr< S > s( T::make() );
        { V x = j.x0; double t = j.t0 , dt = j.dt; T::begin( *s , x , t , dt ); for( int i = 0 ; i < j.prefix ; ++i ) direct( e , *s , x , t , dt , 0 );
            // the integration goes on from there
            double d = t - j.t0; j.x0 = x; j.t0 = t; j.t1 += d; for( double &q : j.times ) q += d; }
        S kept( *s );
        Sys f{ &e }; V x = j.x0; Obs o{ &l , &j };
        fp_env = &e; fp_obs = &o;
        long before = e.total;
        bool own_count = true;
        e.arm( j.rhs_throws , -1 , j.kind );
        e.calls = 0;
        // what "by value" and "by reference" mean for the stepper: canonical call is by reference if the form is
        S &st = *s;
        try
        {
            double r = 0;
            #define BOTH( expr_value , expr_ref ) r = by_ref_expected ? ( expr_ref ) : ( expr_value )
            switch( form )
            {
            case F_PLAIN : own_count = false; BOTH( call( j , st , f , x , o ) , call( j , std::ref( st ) , f , x , o ) ); break;
            case F_STEPPER_STDREF : own_count = false; r = call( j , std::ref( st ) , f , x , o ); break;
            case F_STEPPER_BOOSTREF : own_count = false; r = call( j , boost::ref( st ) , f , x , o ); break;
            case F_SYSTEM_STDREF : own_count = false; r = call( j , st , std::ref( f ) , x , o ); break;
            case F_SYSTEM_BOOSTREF : own_count = false; r = call( j , st , boost::ref( f ) , x , o ); break;
            case F_SYSTEM_POINTER : own_count = false; r = call( j , st , &fp_sys , x , o ); break;
            case F_SYSTEM_LAMBDA : own_count = false; r = call( j , st , [f]( const V &y , V &d , double t ) { f( y , d , t ); } , x , o ); break;
            case F_OBS_STDREF : r = call( j , st , f , x , std::ref( o ) ); break;
            case F_OBS_BOOSTREF : r = call( j , st , f , x , boost::ref( o ) ); break;
            case F_OBS_POINTER : r = call( j , st , f , x , &fp_obs_call ); break;
            case F_OBS_CONST : r = call( j , st , f , x , CObs{ &o } ); break;
            case F_OBS_NONE : l.observes = false; r = call_unobserved( j , st , f , x ); break;
            case F_OBS_NULL : l.observes = false; r = call( j , st , f , x , ode::null_observer() ); break;
            case F_COLLECTION :
            {
                ode::observer_collection< V , double > oc;
                std::vector< int > order; long want = 0;
                oc.observers().push_back( [&]( const V & , const double & ) { order.push_back( 0 ); } );
                oc.observers().push_back( [&]( const V &y , const double &t ) { order.push_back( 1 ); ++want; o( y , t ); } );
                oc.observers().push_back( [&]( const V & , const double & ) { order.push_back( 2 ); } );
                r = call( j , st , f , x , std::ref( oc ) );
                for( size_t i = 0 ; i < order.size() ; ++i ) if( order[i] != (int)( i % 3 ) ) c.fail( "observer-collection" , "observers called in the order of %d at call %zu" , order[i] , i );
                if( order.size() != 3 * (size_t)want ) c.fail( "observer-collection" , "%zu calls of three observers for %ld observations" , order.size() , want );
                break;
            }
            case F_CHECKER : own_count = false; r = call_checked( j , st , f , x , o , ode::max_step_checker( 1000000 ) ); break;
            case F_CHECKER_REF : { ode::max_step_checker ck( 1000000 ); r = call_checked( j , st , f , x , std::ref( o ) , std::ref( ck ) ); break; }
            case F_CHECKER_ALL_REF : { ode::max_step_checker ck( 1000000 ); r = call_checked( j , boost::ref( st ) , boost::ref( f ) , x , boost::ref( o ) , boost::ref( ck ) ); break; }
            case F_TIMES_RANGE : own_count = false; r = j.driver == 3 ? (double)ode::integrate_times( st , f , x , j.times , j.dt , o ) : call( j , st , f , x , o ); break;
            case F_TIMES_LIST : { own_count = false; std::list< double > ts( j.times.begin() , j.times.end() ); r = j.driver == 3 ? (double)ode::integrate_times( st , f , x , std::make_pair( ts.begin() , ts.end() ) , j.dt , o ) : call( j , st , f , x , o ); break; }
            default : own_count = false; r = T::call_range( j , st , f , x , o ); break;
            }
            #undef BOTH
            l.ret.push_back( r );
        }
        catch( sim::SimFault & ) { l.thrown = 1; }
        catch( sim::SimFaultRaw & ) { l.thrown = 1; }
        catch( ObsFault & ) { l.thrown = 2; c.fault( "observer-throws" ); }
        e.disarm();
        l.evals = e.total - before; l.x = x;
        // a function object passed by value is copied, one passed by reference is the one of the caller
        if( !l.thrown && own_count && l.observes && o.own != l.calls ) c.fail( "observer-passing" , "%s: the observer of the caller saw %ld of %ld observations" , form_name[form] , o.own , l.calls );
        if( !l.thrown && !own_count && o.own != 0 ) c.fail( "observer-passing" , "%s: an observer passed by value was changed" , form_name[form] );
        if( !l.thrown )
        {   // the stepper of the caller
            bool ref = form == F_STEPPER_STDREF || form == F_STEPPER_BOOSTREF || form == F_CHECKER_ALL_REF || ( form == F_PLAIN && by_ref_expected );
            V y = ref ? l.x : j.x0; double t = ref && !l.seen.empty() ? l.seen[ l.seen.size() - 1 - y.size() ] : j.t0 , dt = j.dt;
            T::begin( *s , y , t , dt );
            for( int i = 0 ; i < 2 ; ++i ) direct( e , *s , y , t , dt , &l.after );
            if( !ref )
            {   // passed by value: as if the integration had never been
                std::vector< double > h; y = j.x0; t = j.t0; dt = j.dt;
                T::begin( kept , y , t , dt );
                for( int i = 0 ; i < 2 ; ++i ) direct( e , kept , y , t , dt , &h );
                if( !same_values( h , l.after ) ) c.fail( "stepper-passing" , "%s: a stepper passed by value was changed by the integration" , form_name[form] );
            }
        }
        return l;
    }
};

typedef Log (*RunFn)( Ctx & , const Prob & , const Job & , int , bool );
struct Kind { const char *name; RunFn run; bool controlled , has_range , history; };
std::vector< Kind > &kinds();
struct RegKind { RegKind( const char *n , RunFn f , bool ct , bool r , bool h ) { Kind k = { n , f , ct , r , h }; kinds().push_back( k ); } };
#define KIND( T ) static entry::RegKind SIM_CAT( kreg_ , __COUNTER__ )( T::name() , &entry::Runner< T >::run , T::controlled , T::has_range , T::history )

// state given as a range
struct WithRange
{
    static const bool has_range = true;
    template< class S > static double call_range( const Job &j , S &s , Sys f , V &x , Obs o )
    { const std::pair< V::iterator , V::iterator > r( x.begin() , x.end() ); return call( j , s , f , r , o ); }
};
struct NoRange
{
    static const bool has_range = false;
    template< class S > static double call_range( const Job &j , S &s , Sys f , V &x , Obs o ) { return call( j , s , f , x , o ); }
};
struct BasicOps { static const bool history = false , controlled = false; template< class S > static void begin( S & , V & , double , double ) { }
    template< class S > static void step( S &s , Sys f , V &x , double &t , double &dt ) { s.do_step( f , x , t , dt ); t += dt; } };
struct HistOps : BasicOps { static const bool history = true; };
struct CtlOps { static const bool history = false , controlled = true; template< class S > static void begin( S & , V & , double , double ) { }
    template< class S > static void step( S &s , Sys f , V &x , double &t , double &dt ) { s.try_step( f , x , t , dt ); } };
struct DenseOps { static const bool history = false , controlled = true; template< class S > static void begin( S &s , V &x , double t , double dt ) { s.initialize( x , t , dt ); }
    template< class S > static void step( S &s , Sys f , V &x , double &t , double &dt ) { s.do_step( f ); x = s.current_state(); t = s.current_time(); dt = s.current_time_step(); } };
} // namespace entry
#endif
