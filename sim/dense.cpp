// P10: interpolation of the dense-output steppers.  Oracles: a high-accuracy solution through the
// state at the start of the step, the published interpolation formula, and a replica that never interpolates.
#include "mach.hpp"
using namespace mach;

namespace {
V flow( const Prob &p , const V &x , double t , double h )
{
    static const ref::Tableau T = ref::t_f78();
    int m = 1 + (int)( std::fabs( h ) * ( 12 + 6 * p.stiff ) );
    V y = x; double q = h / m;
    for( int i = 0 ; i < m ; ++i ) y = ref::rk_step( T , ref_rhs( p ) , y , t + i * q , q ).x;
    return y;
}
enum Kind { DOPRI , EULER , BS , ROS };
Kind kind_of( const std::string &n ) { return n.find( "dopri5" ) != std::string::npos ? DOPRI : n.find( "euler" ) != std::string::npos ? EULER : n.find( "rosenbrock" ) != std::string::npos ? ROS : BS; }
const Entry &pick_machine( Ctx &c )
{
    std::vector< const Entry * > v;
    for( const Entry &e : machines() ) if( e.tr.dense ) v.push_back( &e );
    const Entry &e = *v[ c.draw( v.size() ) ];
    c.note( "stepper %s" , e.name ); c.cover( e.name );
    return e;
}
// continuous extension of Dormand-Prince 5 (Shampine; Hairer, Norsett, Wanner: Solving ODEs I, II.6)
V contd5( const V &y0 , const std::vector< V > &k , double h , double th )
{
    const ref::Tableau T = ref::t_dp5();
    double e = 1 - th , A = th * th * ( 3 - 2 * th ) , C = th * th * e * e , w[7];
    double X[7] = { -5 * ( 2558722523. - 31403016. * th ) / 11282082432. , 0 , 100 * ( 882725551. - 15701508. * th ) / 32700410799. , -25 * ( 443332067. - 31403016. * th ) / 1880347072. ,
                    32805 * ( 23143187. - 3489224. * th ) / 199316789632. , -55 * ( 29972135. - 7076736. * th ) / 822651844. , 10 * ( 7414447. - 829305. * th ) / 29380423. };
    for( int i = 0 ; i < 7 ; ++i ) w[i] = A * T.b[i] + C * X[i];
    w[0] += th * e * e; w[6] -= th * th * e;
    V y = y0; for( int i = 0 ; i < 7 ; ++i ) ref::axpy( y , h * w[i] , k[i] );
    return y;
}

// the step of Bulirsch-Stoer with step numbers 2,6,..,4k+2 and its dense output (Hairer, Ostermann: Dense output
// for extrapolation methods): Taylor polynomial at the centre of the step, whose value and derivatives are extrapolated from
// the centre values of the midpoint rules and central differences of the right-hand sides evaluated there
struct BsPoly { V end; std::vector< V > a; double noise , miss; };
struct BsTable { std::vector< std::vector< V > > d; std::vector< V > fin , cen; };
void bs_row( BsTable &T , const ref::F &f , const V &x , double t , double H )
{
    size_t n = x.size(); int m = 2 + 4 * (int)T.d.size(); double h = H / m; V y0 = x , y1 = x , y2 , g( n );
    T.d.emplace_back(); std::vector< V > &d = T.d.back(); d.reserve( m + 1 );
    f( x , g , t ); d.push_back( g ); ref::axpy( y1 , h , g );
    for( int i = 1 ; ; ++i )
    {
        f( y1 , g , t + i * h ); d.push_back( g ); if( i == m / 2 ) T.cen.push_back( y1 );
        if( i == m ) { V e( n ); for( size_t q = 0 ; q < n ; ++q ) e[q] = 0.5 * ( y0[q] + y1[q] + h * g[q] ); T.fin.push_back( e ); break; }
        y2 = y0; ref::axpy( y2 , 2 * h , g ); y0.swap( y1 ); y1.swap( y2 );
    }
}
BsPoly bs_poly( const BsTable &T , size_t n , double H , int k , const V &x_end , double scale )
{
    BsPoly r; r.noise = 1e-16; const std::vector< std::vector< V > > &d = T.d; const std::vector< V > &fin = T.fin , &cen = T.cen;
    auto weight = [k]( int j , int from ) -> long double { long double w = 1; for( int l = from ; l <= k ; ++l ) if( l != j ) { long double a = ( 2 + 4 * j ) * ( 2 + 4 * j ) , b = ( 2 + 4 * l ) * ( 2 + 4 * l ); w *= a / ( a - b ); } return w; };
    r.end.assign( n , 0 ); r.a.assign( 2 * k + 3 , V( n , 0 ) );
    for( int j = 0 ; j <= k ; ++j ) ref::axpy( r.end , (double)weight( j , 0 ) , fin[j] );
    r.miss = ref::maxdiff( r.end , x_end ); if( !( r.miss <= 1e-9 * scale ) ) return r;
    for( int j = 0 ; j <= k ; ++j ) { ref::axpy( r.a[0] , (double)weight( j , 0 ) , cen[j] ); r.noise += 2e-16 * std::fabs( (double)weight( j , 0 ) ) * ref::maxabs( cen[j] ); }
    for( int p = 0 ; p <= 2 * k + 1 ; ++p )
        for( int j = p / 2 ; j <= k ; ++j )
        {
            int m = 2 + 4 * j; long double w = weight( j , p / 2 ) , bin = 1;
            for( int i = 1 ; i <= p + 1 ; ++i ) w *= 0.5L * H / i;
            for( int i = 0 ; i < p ; ++i ) w *= m / ( 2.0L * H );
            for( int i = 0 ; i <= p ; ++i )
            {
                ref::axpy( r.a[p + 1] , (double)( ( i % 2 ? -1 : 1 ) * w * bin ) , d[j][m / 2 + p - 2 * i] );
                r.noise += 2e-16 * std::fabs( (double)( w * bin ) ) * ref::maxabs( d[j][m / 2 + p - 2 * i] );
                bin = bin * ( p - i ) / ( i + 1 );
            }
        }
    return r;
}
V bs_eval( const BsPoly &p , double th )
{
    V y = p.a[0]; double q = 2 * th - 1 , w = q;
    for( size_t i = 1 ; i < p.a.size() ; ++i , w *= q ) ref::axpy( y , w , p.a[i] );
    return y;
}

SIM_SCENARIO( P10 , interpolation , 3 )
{
    const Entry &en = pick_machine( c ); Kind kd = kind_of( en.name );
    std::unique_ptr< Machine > m( en.make() ) , r( en.make() ); m->name = r->name = en.name;
    static const double tols[] = { 1e-6 , 1e-4 , 1e-8 , 1e-5 };
    double eps = c.pick( tols ) , mx = 0 , dir = c.chance( 400 ) ? -1 : 1;
    Env e( c ) , e2( c ); e.p.draw( c ); size_t n = 1 + c.draw( 5 );
    if( en.tr.stiff && c.chance( 300 ) ) { dir = 1; e.p.stiff = c.real( 1 , 10 ); }
    if( c.chance( 300 ) ) mx = dir * c.real( 0.05 , 0.5 );
    m->configure( eps , mx ); r->configure( eps , mx ); e2.p = e.p;
    std::vector< double > ratios;     // interpolation errors in units of the tolerance
    int rounds = 1 + (int)c.draw( 2 ); bool trivial = true;
    for( int round = 0 ; round < rounds ; ++round )
    {
        if( round && en.tr.resizes && c.chance( 500 ) ) { n = 1 + c.draw( 8 ); c.fault( "size-change" ); }
        if( round ) { dir = e.p.stiff ? 1 : c.chance( 400 ) ? -1 : 1; if( mx ) mx = dir * std::fabs( mx ); c.fault( "initialize-again" ); if( mx && dir * mx > 0 ) { m->configure( eps , mx ); r->configure( eps , mx ); } }
        e.n = e2.n = n; V x( n ); for( double &v : x ) v = c.real( -1.5 , 1.5 );
        double t = c.chance( 300 ) ? 0 : c.real( -5 , 5 ) , dt = dir * ( kd == EULER ? c.real( 0.001 , 0.02 ) : c.real( 0.01 , 0.6 ) );
        if( mx && std::fabs( dt ) > std::fabs( mx ) ) dt = mx;
        V rx = x; double rt = t , rdt = dt;
        m->begin( e , x , t , dt ); r->begin( e2 , x , t , dt );
        int steps = 1 + (int)c.draw( 12 );
        for( int i = 0 ; i < steps ; ++i )
        {
            V x0 = x; double t0 = t; long calls = e.total , calls2 = e2.total;
            m->step( e , x , t , dt ); r->step( e2 , rx , rt , rdt );
            // evaluations: six stages for each try of Dormand-Prince, whose last stage is the first of the next step; one for Euler
            calls = e.total - calls; calls2 = e2.total - calls2;
            if( kd == DOPRI && ( i == 0 ? ( calls % 6 != 1 || calls < 7 ) : ( calls % 6 != 0 || calls < 6 ) ) ) c.fail( "evaluations" , "%s: step %d after initialize made %ld evaluations of the right-hand side" , en.name , i , calls );
            if( kd == EULER && calls != 1 ) c.fail( "evaluations" , "%s: a step made %ld evaluations of the right-hand side" , en.name , calls );
            if( calls != calls2 ) c.fail( "evaluations" , "%s: %ld evaluations of the right-hand side with interpolation, %ld without" , en.name , calls , calls2 );
            calls = e.total;
            if( rt != t || rdt != dt || ref::maxdiff( rx , x ) != 0 ) c.fail( "interpolation-disturbs" , "%s: a stepper that was asked for interpolated values makes another step than one that was not" , en.name );
            double h = t - t0; c.log( "step" , t , dt ); c.logvec( "x" , x ); c.elapse( h );
            if( ref::maxabs( x ) > 50 ) return;
            ref::RkResult rr; if( kd == DOPRI ) rr = ref::rk_step( ref::t_dp5() , ref_rhs( e.p ) , x0 , t0 , h );
            V fx( n ); ref_rhs( e.p )( x0 , fx , t0 );
            double mag = 1 + std::max( ref::maxabs( x ) , ref::maxabs( x0 ) ) + std::fabs( h ) * ref::maxabs( fx );
            std::vector< BsPoly > cand;
            bool exact = kd == BS && c.chance( 350 );
            if( exact )
            {
                double best = HUGE_VAL;
                BsTable T; ref::F f = ref_rhs( e.p ); bs_row( T , f , x0 , t0 , h );
                for( int k = 1 ; k <= 8 ; ++k )
                {
                    bs_row( T , f , x0 , t0 , h ); BsPoly p = bs_poly( T , n , h , k , x , mag ); best = std::min( best , p.miss );
                    if( p.miss <= 1e-12 * mag + 100 * p.noise ) cand.push_back( p ); else if( !cand.empty() ) break;
                }
                if( cand.empty() ) c.fail( "step-result" , "%s: the step of size %g from t=%.17g is no extrapolation of midpoint rules with 2, 6, 10, .. steps (nearest differs by %g)" , en.name , h , t0 , best );
            }
            ref::RosResult ros; double kmax = 0;
            if( kd == ROS )
            {
                auto jac = [&]( const V &y , ref::M &J , double tt , V &ft ) { for( size_t a = 0 ; a < n ; ++a ) { double dii , dij , dd; e.p.jac( a , n , y[a] , y[( a + 1 ) % n] , tt , dii , dij , dd ); J[a][a] += dii; J[a][( a + 1 ) % n] += dij; ft[a] = dd; } };
                ros = ref::rosenbrock( ref_rhs( e.p ) , jac , x0 , t0 , h ); for( auto &k : ros.k ) kmax = std::max( kmax , ref::maxabs( k ) );
            }
            int q = 1 + (int)c.draw( 6 ); V first; double th1 = -1;
            for( int j = 0 ; j < q ; ++j )
            {
                double th = c.chance( 200 ) ? 0.0 : c.chance( 200 ) ? 1.0 : c.real( 0 , 1 );
                double tq = th == 0 ? t0 : th == 1 ? t : t0 + th * h;
                V y( n , -3.5 ); m->eval( e , tq , y ); c.log( "eval" , tq ); c.logvec( "y" , y );
                if( th1 < 0 ) { th1 = tq; first = y; }
                if( y.size() != n ) c.fail( "interpolation-size" , "%s: interpolated state has size %zu" , en.name , y.size() );
                bool end = th == 0 || th == 1; const V &xe = th == 0 ? x0 : x;
                if( end && kd != BS && !( ref::maxdiff( y , xe ) <= 1e-13 * mag ) )
                    c.fail( "interpolation-end" , "%s: the value interpolated at the %s of the step %.17g..%.17g differs from the state there by %g" , en.name , th == 0 ? "start" : "end" , t0 , t , ref::maxdiff( y , xe ) );
                if( kd == DOPRI )
                {
                    V w = contd5( x0 , rr.k , h , th );
                    if( !( ref::maxdiff( y , w ) <= 2e-12 * mag ) ) c.fail( "interpolation-formula" , "%s: the value interpolated at theta=%.9g of a step of size %g differs from the continuous extension by %g" , en.name , th , h , ref::maxdiff( y , w ) );
                }
                else if( kd == EULER )
                {
                    V w( n ); for( size_t k = 0 ; k < n ; ++k ) w[k] = x0[k] + th * h * fx[k];
                    if( !( ref::maxdiff( y , w ) <= 1e-13 * mag ) ) c.fail( "interpolation-formula" , "%s: the value interpolated at theta=%.9g differs from the line by %g" , en.name , th , ref::maxdiff( y , w ) );
                }
                else
                {
                    if( exact )
                    {
                        double best = HUGE_VAL; std::vector< BsPoly > left;
                        for( BsPoly &p : cand ) { double dd = ref::maxdiff( bs_eval( p , th ) , y ); best = std::min( best , dd ); if( dd <= 1e-12 * mag + 300 * p.noise ) left.push_back( p ); }
                        if( left.empty() ) c.fail( "interpolation-formula" , "%s: the value interpolated at theta=%.9g of a step of size %g differs from the dense output of the method by %g" , en.name , th , h , best );
                        cand = left;
                    }
                    if( kd == ROS )
                    {
                        V w = ref::rosenbrock_dense( ros , x0 , th ); double sca = ( mag + 20 * kmax ) * ( 1 + std::fabs( h ) * ( 1 + e.p.stiff ) );
                        if( !( ref::maxdiff( y , w ) <= 1e-11 * sca ) ) c.fail( "interpolation-formula" , "%s: the value interpolated at theta=%.9g of a step of size %g differs from the dense output of the method by %g" , en.name , th , h , ref::maxdiff( y , w ) );
                    }
                    V w = flow( e.p , x0 , t0 , th * h ); double d = ref::maxdiff( y , w ) , to = eps * mag; ratios.push_back( d / to );
                    if( !( d <= 1e6 * to + 1e-11 ) ) c.fail( "interpolation-accuracy" , "%s: the value interpolated at theta=%.9g of a step of size %g misses the solution by %g (tolerance %g)" , en.name , th , h , d , to );
                }
                trivial = false;
            }
            V again( n ); m->eval( e , th1 , again );
            if( e.total != calls ) c.fail( "evaluations" , "%s: interpolation evaluated the right-hand side" , en.name );
            if( ref::maxdiff( again , first ) != 0 ) c.fail( "interpolation-repeat" , "%s: interpolating twice at t=%.17g gave different values" , en.name , th1 );
        }
    }
    // single steps can be far off (bulirsch_stoer_dense_out without control of the interpolation), most are not
    std::sort( ratios.begin() , ratios.end() );
    if( ratios.size() >= 8 && !( ratios[ratios.size() / 2] <= 500 ) ) c.fail( "interpolation-accuracy" , "%s: half of %zu interpolated values miss the solution by more than %g times the tolerance" , en.name , ratios.size() , ratios[ratios.size() / 2] );
    if( !trivial ) c.nontrivial();
}

// the interpolation error of one step falls with the order of the interpolation
SIM_SCENARIO( P10 , interpolation_order , 1 )
{
    const Entry &en = pick_machine( c ); Kind kd = kind_of( en.name );
    if( kd == BS ) throw sim::Skip();
    double dir = c.chance( 400 ) ? -1 : 1 , h0 = c.real( 0.05 , 0.12 ) , err[4] = { 0 , 0 , 0 , 0 };
    Env e( c ); e.p.draw( c ); size_t n = 1 + c.draw( 4 ); e.n = n;
    int p = kd == DOPRI ? 4 : kd == ROS ? 3 : 1;
    for( int s = 0 ; s < 4 ; ++s )
    {
        V x0( n ); for( double &v : x0 ) v = c.real( -1.5 , 1.5 );
        double t0 = c.real( -5 , 5 );
        for( int k = 0 ; k < 4 ; ++k )
        {
            std::unique_ptr< Machine > m( en.make() ); m->name = en.name; m->configure( 1.0 , 0 );
            double h = dir * h0 / ( 1 << k ) , t = t0 , dt = h; V x = x0;
            m->begin( e , x , t , dt ); m->step( e , x , t , dt );
            if( std::fabs( t - t0 - h ) > 1e-14 * ( 1 + std::fabs( t0 ) ) ) throw sim::Skip();
            for( int j = 1 ; j <= 4 ; ++j ) { double th = j / 4.0 - 0.1; V y( n ); m->eval( e , t0 + th * h , y ); err[k] += ref::maxdiff( y , flow( e.p , x0 , t0 , th * h ) ); }
        }
    }
    c.note( "%s: interpolation errors %g %g %g %g for h=%g and halvings" , en.name , err[0] , err[1] , err[2] , err[3] , h0 );
    double want = std::pow( 8.0 , p + 1 );
    if( err[0] > 1e-8 ) c.nontrivial();
    if( !( err[3] <= 5 * ( err[0] / want ) + 1e-13 ) ) c.fail( "interpolation-order" , "%s: interpolation errors %g, %g, %g, %g for step sizes halved from %g do not fall with order %d" , en.name , err[0] , err[1] , err[2] , err[3] , h0 , p );
}
}
