// Stand-in for Boost.MPI: the ranks are simulated threads of one process (conc.cpp), communication
// goes through a simulated network.  Messages between two ranks arrive in order but any time later,
// a rank that may leave a collective before the others does so or not as the schedule says.
// Collectives that the ranks of a communicator do not call alike, and deadlocks, are violations.
#ifndef VERIF_STUB_BOOST_MPI_HPP
#define VERIF_STUB_BOOST_MPI_HPP
#include <conc.hpp>
#include <boost/config.hpp>
#include <boost/range.hpp>
#include <memory>
#include <typeinfo>
#include <vector>
#include <algorithm>
#include <functional>
#include <map>
#include <set>

namespace simmpi {
struct Slot                             // one collective operation of a communicator
{
    std::string kind; int root = -2; std::vector< char > here; std::vector< std::shared_ptr< void > > in; std::vector< std::shared_ptr< void > > out; std::vector< long > at; int arrived = 0;
};
struct Msg { int tag; std::shared_ptr< void > data; const std::type_info *type; long at; };
struct Group
{
    std::vector< int > members; std::vector< std::size_t > next; std::map< std::size_t , Slot > slots;
    std::map< std::pair< int , int > , std::vector< Msg > > mail; std::size_t id = 0;
};
struct World
{
    sim::Ctx *c = 0; std::shared_ptr< Group > world; unsigned delay = 8; bool eager = true; long clock = 0; std::size_t groups = 0; sim::u64 collectives = 0 , delayed = 0 , early = 0;
    std::map< std::string , std::shared_ptr< Group > > made;
};
inline World &the() { static World w; return w; }
inline std::shared_ptr< Group > group( std::vector< int > m ) { std::shared_ptr< Group > g = std::make_shared< Group >(); g->members = m; g->next.assign( m.size() , 0 ); g->id = the().groups++; return g; }
inline void start( sim::Ctx &c , int ranks , unsigned delay , bool eager )
{
    World &w = the(); w = World(); w.c = &c; w.delay = delay; w.eager = eager;
    std::vector< int > m; for( int i = 0 ; i < ranks ; ++i ) m.push_back( i ); w.world = group( m );
}
inline long latency() { World &w = the(); long d = w.delay ? (long)w.c->draw( w.delay ) : 0; if( d ) { ++w.delayed; } return conc::now() + d; }
} // namespace simmpi

namespace boost { namespace mpi {
enum comm_create_kind { comm_duplicate , comm_take_ownership , comm_attach };
class environment { public: environment( bool = true ) { } template< class A , class B > environment( A & , B & , bool = true ) { } static bool initialized() { return true; } };
const int any_source = -1 , any_tag = -1;

class communicator
{
public:
    std::shared_ptr< simmpi::Group > g;
    communicator() : g( simmpi::the().world ) { }
    explicit communicator( std::shared_ptr< simmpi::Group > x ) : g( x ) { }
    int rank() const { int me = conc::thread_id(); for( std::size_t i = 0 ; i < g->members.size() ; ++i ) if( g->members[i] == me ) return (int)i; return -1; }
    int size() const { return (int)g->members.size(); }
    bool operator==( const communicator &o ) const { return g == o.g; }
    bool operator!=( const communicator &o ) const { return g != o.g; }
    operator bool() const { return (bool)g; }
    inline communicator split( int color ) const;
    inline communicator split( int color , int ) const { return split( color ); }
    inline void barrier() const;
    template< class T > void send( int dest , int tag , const T &v ) const
    { simmpi::Msg m = { tag , std::make_shared< T >( v ) , &typeid( T ) , simmpi::latency() }; auto &q = g->mail[ std::make_pair( rank() , dest ) ]; if( !q.empty() && q.back().at > m.at ) m.at = q.back().at; q.push_back( m ); conc::yield(); }
    template< class T > void recv( int src , int tag , T &v ) const
    {
        int me = rank(); auto k = std::make_pair( src , me ); std::shared_ptr< simmpi::Group > gr = g;
        auto find = [gr,k,tag]() -> long { auto &q = gr->mail[ k ]; for( std::size_t i = 0 ; i < q.size() ; ++i ) if( tag < 0 || q[i].tag == tag ) return q[i].at <= conc::now() ? (long)i : -1; return -1; };
        conc::wait( [find] { return find() >= 0; } );
        auto &q = gr->mail[ k ]; long i = find(); v = *static_cast< T * >( q[i].data.get() ); q.erase( q.begin() + i );
    }
};
} }

namespace simmpi {
// enters collective operation number `next` of the communicator; compares what the ranks call
inline Slot &enter( const boost::mpi::communicator &c , const std::string &kind , int root , std::shared_ptr< void > mine , int &me )
{
    World &w = the(); ++w.collectives;
    me = c.rank();
    if( me < 0 ) w.c->fail( "wrong-communicator" , "rank %d of the world calls %s on a communicator it is not a member of" , conc::thread_id() , kind.c_str() );
    std::size_t k = c.g->next[ me ]++;
    Slot &s = c.g->slots[ k ]; std::size_t n = c.g->members.size();
    if( s.here.empty() ) { s.kind = kind; s.root = root; s.here.assign( n , 0 ); s.in.resize( n ); s.out.resize( n ); s.at.assign( n , 0 ); }
    if( s.kind != kind || s.root != root ) w.c->fail( "collective-mismatch" , "operation %zu of communicator %zu (%zu ranks): rank %d calls %s, another rank called %s" , k , c.g->id , n , me , kind.c_str() , s.kind.c_str() );
    s.here[ me ] = 1; s.in[ me ] = mine; s.at[ me ] = latency(); ++s.arrived;
    w.c->mix( kind.c_str() ); w.c->mix( (sim::u64)me );
    if( w.c->tracing ) w.c->trace( "rank %d: %s (operation %zu of communicator %zu)" , conc::thread_id() , kind.c_str() , k , c.g->id );
    conc::yield();
    return s;
}
inline bool seen( const Slot &s , std::size_t r ) { return s.here[ r ] && s.at[ r ] <= conc::now(); }
inline void wait_all( Slot &s ) { conc::wait( [&s] { for( std::size_t r = 0 ; r < s.here.size() ; ++r ) if( !seen( s , r ) ) return false; return true; } ); }
inline void wait_one( Slot &s , int r ) { conc::wait( [&s,r] { return seen( s , (std::size_t)r ); } ); }
inline void leave( Slot &s )        // a rank that need not wait may leave early
{ World &w = the(); if( w.eager && w.c->chance( 600 ) ) { ++w.early; return; } wait_all( s ); }
template< class T > std::string name( const char *k ) { return std::string( k ) + "<" + typeid( T ).name() + ">"; }
template< class T > const T &val( const Slot &s , std::size_t r ) { return *static_cast< T * >( s.in[ r ].get() ); }
// MPI may combine in any order (the operations are associative and commutative up to rounding)
template< class T , class Op > T combine( const Slot &s , Op op , int from ) { std::size_t n = s.in.size(); T r = val< T >( s , from ); for( std::size_t i = 1 ; i < n ; ++i ) r = op( r , val< T >( s , ( from + i ) % n ) ); return r; }
} // namespace simmpi

namespace boost { namespace mpi {
template< class T > struct maximum { const T &operator()( const T &a , const T &b ) const { return a < b ? b : a; } };
template< class T > struct minimum { const T &operator()( const T &a , const T &b ) const { return a < b ? a : b; } };
template< class T > struct bitwise_and { T operator()( const T &a , const T &b ) const { return a & b; } };
template< class T > struct bitwise_or { T operator()( const T &a , const T &b ) const { return a | b; } };
template< class T > struct bitwise_xor { T operator()( const T &a , const T &b ) const { return a ^ b; } };
template< class T > struct logical_xor { T operator()( const T &a , const T &b ) const { return ( a || b ) && !( a && b ); } };
template< class Op , class T > struct is_commutative { static const bool value = false; };

inline void communicator::barrier() const { int me; simmpi::Slot &s = simmpi::enter( *this , "barrier" , -1 , std::shared_ptr< void >() , me ); simmpi::wait_all( s ); }
inline communicator communicator::split( int color ) const
{
    int me; simmpi::Slot &s = simmpi::enter( *this , "split" , -1 , std::make_shared< int >( color ) , me ); simmpi::wait_all( s );
    std::vector< int > m; for( std::size_t r = 0 ; r < s.in.size() ; ++r ) if( simmpi::val< int >( s , r ) == color ) m.push_back( g->members[r] );
    char key[64]; snprintf( key , sizeof key , "%zu/%zu/%d" , g->id , g->next[me] , color );
    std::shared_ptr< simmpi::Group > &x = simmpi::the().made[ key ]; if( !x ) x = simmpi::group( m );
    return communicator( x );
}
template< class T , class Op > T all_reduce( const communicator &c , const T &v , Op op )
{ int me; simmpi::Slot &s = simmpi::enter( c , simmpi::name< T >( "all_reduce" ) , -1 , std::make_shared< T >( v ) , me ); simmpi::wait_all( s ); return simmpi::combine< T >( s , op , me ); }
template< class T , class Op > void all_reduce( const communicator &c , const T &v , T &out , Op op ) { T x( v ); out = all_reduce( c , x , op ); }
template< class T , class Op > void all_reduce( const communicator &c , const T *v , int n , T *out , Op op ) { for( int i = 0 ; i < n ; ++i ) out[i] = all_reduce( c , v[i] , op ); }
template< class T , class Op > void reduce( const communicator &c , const T &v , T &out , Op op , int root )
{ int me; simmpi::Slot &s = simmpi::enter( c , simmpi::name< T >( "reduce" ) , root , std::make_shared< T >( v ) , me ); if( me == root ) { simmpi::wait_all( s ); out = simmpi::combine< T >( s , op , me ); } else simmpi::leave( s ); }
template< class T , class Op > void reduce( const communicator &c , const T &v , Op op , int root ) { T dummy( v ); reduce( c , v , dummy , op , root ); }
template< class T > void broadcast( const communicator &c , T &v , int root )
{ int me; simmpi::Slot &s = simmpi::enter( c , simmpi::name< T >( "broadcast" ) , root , std::make_shared< T >( v ) , me ); if( me == root ) simmpi::leave( s ); else { simmpi::wait_one( s , root ); v = simmpi::val< T >( s , root ); } }
template< class T > void gather( const communicator &c , const T &v , std::vector< T > &out , int root )
{ int me; simmpi::Slot &s = simmpi::enter( c , simmpi::name< T >( "gather" ) , root , std::make_shared< T >( v ) , me ); if( me == root ) { simmpi::wait_all( s ); out.clear(); for( std::size_t r = 0 ; r < s.in.size() ; ++r ) out.push_back( simmpi::val< T >( s , r ) ); } else simmpi::leave( s ); }
template< class T > void gather( const communicator &c , const T &v , int root ) { std::vector< T > d; gather( c , v , d , root ); }
template< class T > void all_gather( const communicator &c , const T &v , std::vector< T > &out )
{ int me; simmpi::Slot &s = simmpi::enter( c , simmpi::name< T >( "all_gather" ) , -1 , std::make_shared< T >( v ) , me ); simmpi::wait_all( s ); out.clear(); for( std::size_t r = 0 ; r < s.in.size() ; ++r ) out.push_back( simmpi::val< T >( s , r ) ); }
template< class T > void scatter( const communicator &c , const std::vector< T > &in , T &out , int root )
{
    int me; simmpi::Slot &s = simmpi::enter( c , simmpi::name< T >( "scatter" ) , root , std::make_shared< std::vector< T > >( in ) , me );
    if( me == root ) { if( in.size() < s.in.size() ) simmpi::the().c->fail( "scatter-size" , "scatter of %zu pieces to %zu ranks" , in.size() , s.in.size() ); out = in[ me ]; simmpi::leave( s ); }
    else { simmpi::wait_one( s , root ); const std::vector< T > &v = simmpi::val< std::vector< T > >( s , root ); if( (std::size_t)me >= v.size() ) simmpi::the().c->fail( "scatter-size" , "scatter of %zu pieces to %zu ranks" , v.size() , s.in.size() ); out = v[ me ]; }
}
template< class T > void scatter( const communicator &c , T &out , int root ) { std::vector< T > none; scatter( c , none , out , root ); }
} }
#endif
