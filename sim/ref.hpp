// Reference models, written from the published methods (not from the code under test).
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include <vector>
#include <cmath>
#include <functional>
#include <algorithm>

namespace ref {
typedef std::vector< double > V;
typedef std::function< void ( const V & , V & , double ) > F;

// ------------------------------------------------------------ Runge-Kutta tableaus
struct Tableau
{
    int s;
    std::vector< V > a; V b , c , e;      // e: error weights (b - b^), empty without error estimate
};

inline Tableau t_euler() { return Tableau{ 1 , { {} } , { 1 } , { 0 } , {} }; }
inline Tableau t_rk4()
{
    return Tableau{ 4 , { {} , { 0.5 } , { 0 , 0.5 } , { 0 , 0 , 1 } } , { 1. / 6 , 1. / 3 , 1. / 3 , 1. / 6 } , { 0 , 0.5 , 0.5 , 1 } , {} };
}
inline Tableau t_heun3()      // used with the generic Runge-Kutta stepper
{
    return Tableau{ 3 , { {} , { 1. / 3 } , { 0 , 2. / 3 } } , { 0.25 , 0 , 0.75 } , { 0 , 1. / 3 , 2. / 3 } , {} };
}
inline Tableau t_bs32()       // Bogacki-Shampine 3(2) without FSAL use: third order result, error against the second order one
{
    return Tableau{ 4 , { {} , { 0.5 } , { 0 , 0.75 } , { 2. / 9 , 1. / 3 , 4. / 9 } } , { 2. / 9 , 1. / 3 , 4. / 9 , 0 } , { 0 , 0.5 , 0.75 , 1 } ,
                    { 2. / 9 - 7. / 24 , 1. / 3 - 0.25 , 4. / 9 - 1. / 3 , -0.125 } };
}
inline Tableau t_ck54()
{
    V b = { 37. / 378 , 0 , 250. / 621 , 125. / 594 , 0 , 512. / 1771 };
    V d = { 2825. / 27648 , 0 , 18575. / 48384 , 13525. / 55296 , 277. / 14336 , 0.25 } , e( 6 );
    for( int i = 0 ; i < 6 ; ++i ) e[i] = b[i] - d[i];
    return Tableau{ 6 , { {} , { 0.2 } , { 3. / 40 , 9. / 40 } , { 0.3 , -0.9 , 1.2 } , { -11. / 54 , 2.5 , -70. / 27 , 35. / 27 } ,
                          { 1631. / 55296 , 175. / 512 , 575. / 13824 , 44275. / 110592 , 253. / 4096 } } , b , { 0 , 0.2 , 0.3 , 0.6 , 1 , 0.875 } , e };
}
inline Tableau t_dp5()
{
    V b = { 35. / 384 , 0 , 500. / 1113 , 125. / 192 , -2187. / 6784 , 11. / 84 , 0 };
    V d = { 5179. / 57600 , 0 , 7571. / 16695 , 393. / 640 , -92097. / 339200 , 187. / 2100 , 1. / 40 } , e( 7 );
    for( int i = 0 ; i < 7 ; ++i ) e[i] = b[i] - d[i];
    return Tableau{ 7 , { {} , { 0.2 } , { 3. / 40 , 9. / 40 } , { 44. / 45 , -56. / 15 , 32. / 9 } ,
                          { 19372. / 6561 , -25360. / 2187 , 64448. / 6561 , -212. / 729 } ,
                          { 9017. / 3168 , -355. / 33 , 46732. / 5247 , 49. / 176 , -5103. / 18656 } ,
                          { 35. / 384 , 0 , 500. / 1113 , 125. / 192 , -2187. / 6784 , 11. / 84 } } , b , { 0 , 0.2 , 0.3 , 0.8 , 8. / 9 , 1 , 1 } , e };
}
inline Tableau t_f78()
{
    V b = { 0 , 0 , 0 , 0 , 0 , 34. / 105 , 9. / 35 , 9. / 35 , 9. / 280 , 9. / 280 , 0 , 41. / 840 , 41. / 840 };
    V e( 13 , 0.0 ); e[0] = e[10] = -41. / 840; e[11] = e[12] = 41. / 840;
    return Tableau{ 13 , { {} , { 2. / 27 } , { 1. / 36 , 1. / 12 } , { 1. / 24 , 0 , 1. / 8 } , { 5. / 12 , 0 , -25. / 16 , 25. / 16 } ,
        { 1. / 20 , 0 , 0 , 1. / 4 , 1. / 5 } , { -25. / 108 , 0 , 0 , 125. / 108 , -65. / 27 , 125. / 54 } ,
        { 31. / 300 , 0 , 0 , 0 , 61. / 225 , -2. / 9 , 13. / 900 } , { 2 , 0 , 0 , -53. / 6 , 704. / 45 , -107. / 9 , 67. / 90 , 3 } ,
        { -91. / 108 , 0 , 0 , 23. / 108 , -976. / 135 , 311. / 54 , -19. / 60 , 17. / 6 , -1. / 12 } ,
        { 2383. / 4100 , 0 , 0 , -341. / 164 , 4496. / 1025 , -301. / 82 , 2133. / 4100 , 45. / 82 , 45. / 164 , 18. / 41 } ,
        { 3. / 205 , 0 , 0 , 0 , 0 , -6. / 41 , -3. / 205 , -3. / 41 , 3. / 41 , 6. / 41 , 0 } ,
        { -1777. / 4100 , 0 , 0 , -341. / 164 , 4496. / 1025 , -289. / 82 , 2193. / 4100 , 51. / 82 , 33. / 164 , 12. / 41 , 0 , 1 } } ,
        b , { 0 , 2. / 27 , 1. / 9 , 1. / 6 , 5. / 12 , 0.5 , 5. / 6 , 1. / 6 , 2. / 3 , 1. / 3 , 1 , 0 , 1 } , e };
}

inline void axpy( V &y , double a , const V &x ) { for( size_t i = 0 ; i < y.size() ; ++i ) y[i] += a * x[i]; }

struct RkResult { V x , err; std::vector< V > k; };
inline RkResult rk_step( const Tableau &T , const F &f , const V &x , double t , double dt )
{
    RkResult r; r.k.resize( T.s );
    for( int i = 0 ; i < T.s ; ++i )
    {
        V y = x;
        for( int j = 0 ; j < i ; ++j ) axpy( y , dt * T.a[i][j] , r.k[j] );
        r.k[i].assign( x.size() , 0.0 );
        f( y , r.k[i] , t + T.c[i] * dt );
    }
    r.x = x;
    for( int i = 0 ; i < T.s ; ++i ) axpy( r.x , dt * T.b[i] , r.k[i] );
    if( !T.e.empty() )
    {
        r.err.assign( x.size() , 0.0 );
        for( int i = 0 ; i < T.s ; ++i ) axpy( r.err , dt * T.e[i] , r.k[i] );
    }
    return r;
}

// ------------------------------------------------------------ modified midpoint (Gragg) with smoothing
inline V midpoint( const F &f , const V &x , double t , double dt , int n )
{
    double h = dt / n;
    V d( x.size() ) , a = x , b = x;
    f( x , d , t ); axpy( b , h , d );
    for( int m = 1 ; m < n ; ++m )
    {
        f( b , d , t + m * h );
        V cc = a; axpy( cc , 2 * h , d );
        a = b; b = cc;
    }
    f( b , d , t + dt );
    V r( x.size() );
    for( size_t i = 0 ; i < r.size() ; ++i ) r[i] = 0.5 * ( a[i] + b[i] + h * d[i] );
    return r;
}
// Aitken-Neville extrapolation in h^2 with step numbers 2,4,6,...; err = difference of the last two columns
struct ExResult { V x , err; };
inline ExResult extrapolate( const F &f , const V &x , double t , double dt , const std::vector< int > &n )
{
    std::vector< std::vector< V > > T( n.size() );
    for( size_t i = 0 ; i < n.size() ; ++i )
    {
        T[i].push_back( midpoint( f , x , t , dt , n[i] ) );
        for( size_t k = 1 ; k <= i ; ++k )
        {
            double r = (double)n[i] / n[i - k]; r = r * r - 1;
            V v = T[i][k - 1];
            for( size_t j = 0 ; j < v.size() ; ++j ) v[j] += ( T[i][k - 1][j] - T[i - 1][k - 1][j] ) / r;
            T[i].push_back( v );
        }
    }
    ExResult R; size_t L = n.size() - 1;
    R.x = T[L][L]; R.err = R.x;
    if( L > 0 ) for( size_t j = 0 ; j < R.err.size() ; ++j ) R.err[j] -= T[L][L - 1][j];
    return R;
}

// ------------------------------------------------------------ integrals of Lagrange polynomials
// weights w_j with  integral_{lo}^{hi} p(s) ds = sum_j w_j p(node_j)  for the interpolating polynomial
inline V lagrange_weights( const V &node , double lo , double hi )
{
    size_t n = node.size();
    V w( n );
    for( size_t j = 0 ; j < n ; ++j )
    {
        std::vector< long double > p( 1 , 1.0L );
        long double den = 1;
        for( size_t m = 0 ; m < n ; ++m ) if( m != j )
        {
            den *= (long double)node[j] - node[m];
            std::vector< long double > q( p.size() + 1 , 0.0L );
            for( size_t k = 0 ; k < p.size() ; ++k ) { q[k + 1] += p[k]; q[k] -= p[k] * node[m]; }
            p = q;
        }
        long double I = 0 , a = 1 , b = 1;
        for( size_t k = 0 ; k < p.size() ; ++k ) { a *= lo; b *= hi; I += p[k] * ( b - a ) / ( k + 1 ); }
        w[j] = (double)( I / den );
    }
    return w;
}
inline V ab_weights( int n ) { V s; for( int j = 0 ; j < n ; ++j ) s.push_back( -j ); return lagrange_weights( s , 0 , 1 ); }     // newest first
inline V am_weights( int n ) { V s; for( int j = 0 ; j < n ; ++j ) s.push_back( 1 - j ); return lagrange_weights( s , 0 , 1 ); }  // newest (predicted point) first

// ------------------------------------------------------------ dense linear algebra, Gauss elimination with partial pivoting
typedef std::vector< V > M;
inline bool solve( M a , V b , V &x )
{
    size_t n = b.size();
    for( size_t c = 0 ; c < n ; ++c )
    {
        size_t p = c;
        for( size_t r = c + 1 ; r < n ; ++r ) if( std::fabs( a[r][c] ) > std::fabs( a[p][c] ) ) p = r;
        if( a[p][c] == 0 ) return false;
        std::swap( a[p] , a[c] ); std::swap( b[p] , b[c] );
        for( size_t r = c + 1 ; r < n ; ++r )
        {
            double m = a[r][c] / a[c][c];
            for( size_t k = c ; k < n ; ++k ) a[r][k] -= m * a[c][k];
            b[r] -= m * b[c];
        }
    }
    x.assign( n , 0 );
    for( size_t i = n ; i-- > 0 ; )
    {
        double v = b[i];
        for( size_t k = i + 1 ; k < n ; ++k ) v -= a[i][k] * x[k];
        x[i] = v / a[i][i];
    }
    return true;
}
// ------------------------------------------------------------ Rosenbrock method of order 4(3), stiffly stable (Hairer, Wanner; Press et al.)
struct RosResult { V x , err; std::vector< V > k; bool ok; };
template< class Fn , class Jn > RosResult rosenbrock( const Fn &f , const Jn &jac , const V &y , double t , double h )
{
    static const double gam = 0.25 , cc[5] = { 0 , 0.386 , 0.21 , 0.63 , 1 } , d[5] = { 0.25 , -0.1043 , 0.1035 , -0.03620000000000023 , 0 };
    static const double a[5][4] = { { 0 } , { 1.544 } , { 0.9466785280815826 , 0.2557011698983284 } , { 3.314825187068521 , 2.896124015972201 , 0.9986419139977817 } ,
        { 1.221224509226641 , 6.019134481288629 , 12.53708332932087 , -0.6878860361058950 } };
    static const double c[6][5] = { { 0 } , { -5.6688 } , { -2.430093356833875 , -0.2063599157091915 } , { -0.1073529058151375 , -9.594562251023355 , -20.47028614809616 } ,
        { 7.496443313967647 , -10.24680431464352 , -33.99990352819905 , 11.70890893206160 } , { 8.083246795921522 , -7.981132988064893 , -31.52159432874371 , 16.31930543123136 , -6.058818238834054 } };
    size_t n = y.size();
    M J( n , V( n ) ); V ft( n ) , g( n ) , yt; jac( y , J , t , ft );
    M A( n , V( n ) );
    for( size_t i = 0 ; i < n ; ++i ) for( size_t j = 0 ; j < n ; ++j ) A[i][j] = ( i == j ? 1 / ( gam * h ) : 0 ) - J[i][j];
    RosResult R; R.ok = true;
    for( int s = 0 ; s < 6 ; ++s )
    {
        if( s < 5 ) { yt = y; for( int j = 0 ; j < s ; ++j ) axpy( yt , a[s][j] , R.k[j] ); }
        else axpy( yt , 1 , R.k[4] );
        f( yt , g , t + ( s < 5 ? cc[s] : 1 ) * h );
        if( s < 5 ) axpy( g , h * d[s] , ft );
        for( int j = 0 ; j < s ; ++j ) axpy( g , c[s][j] / h , R.k[j] );
        V k; if( !solve( A , g , k ) ) { R.ok = false; return R; }
        R.k.push_back( k );
    }
    R.err = R.k[5]; R.x = yt; axpy( R.x , 1 , R.err );
    return R;
}
// its continuous output (RODAS; Hairer, Wanner: Solving ODEs II; Numerical Recipes 17.5)
inline V rosenbrock_dense( const RosResult &R , const V &y , double s )
{
    static const double d2[5] = { 10.12623508344586 , -7.487995877610167 , -34.80091861555747 , -7.992771707568823 , 1.025137723295662 };
    static const double d3[5] = { -0.6762803392801253 , 6.087714651680015 , 16.43084320892478 , 24.76722511418386 , -6.594389125716872 };
    V r( y.size() );
    for( size_t i = 0 ; i < y.size() ; ++i )
    {
        double c3 = 0 , c4 = 0; for( int j = 0 ; j < 5 ; ++j ) c3 += d2[j] * R.k[j][i] , c4 += d3[j] * R.k[j][i];
        r[i] = ( 1 - s ) * y[i] + s * ( R.x[i] + ( 1 - s ) * ( c3 + s * c4 ) );
    }
    return r;
}

inline double maxabs( const V &a ) { double m = 0; for( double v : a ) m = std::max( m , std::fabs( v ) ); return m; }
inline double maxdiff( const V &a , const V &b )
{
    if( a.size() != b.size() ) return HUGE_VAL;
    double m = 0;
    for( size_t i = 0 ; i < a.size() ; ++i ) { double d = std::fabs( a[i] - b[i] ); if( !( d <= m ) ) m = d == d ? d : HUGE_VAL; }
    return m;
}
} // namespace ref
#endif
