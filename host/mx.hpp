// Matrix operator sweep shared by C09 and C10: every operator over every pair of shapes that compiles.
#ifndef MX_HPP
#define MX_HPP
#include <memory>
#include <utility>
#include <type_traits>
#include "vmon.hpp"
#include "ld.hpp"
#include "num/fixed-point.hpp"
#include "num/matrix.hpp"

template< class T > double todbl( T const & v ) { return double( v ); }
template< class T, int I, int F > double todbl( num::fixed_point<T, I, F> const & v ) { return v.as_double(); }
template< class T > ld lossless( T const & v ) { return ld( v ); }   // without loss
template< class T, int I, int F > ld lossless( num::fixed_point<T, I, F> const & v ) { return v.as_double(); }
template< class T > struct num_ { static T make( vm::Rng & g ) { return T( g.p( .1 ) ? 0 : g.p( .1 ) ? 1 : g.sgn() * g.logu( 1e-3, 1e3 ) ); } static ld res() { return 0; } static ld eps() { return std::numeric_limits<T>::epsilon(); } static char const * name() { return sizeof( T ) == 4 ? "float" : "double"; } };
// the oracle computes in long double as well, so its rounding adds to that of the library
template<> struct num_<long double> { static ld make( vm::Rng & g ) { return ld( g.p( .1 ) ? 0 : g.p( .1 ) ? 1 : g.sgn() * g.logu( 1e-3, 1e3 ) ) * ( 1 + ld( g.uni( -1, 1 ) ) * 0x1p-50L ); } static ld res() { return 0; } static ld eps() { return 4 * std::numeric_limits<ld>::epsilon(); } static char const * name() { return "long double"; } };
template<> struct num_<long long> { static long long make( vm::Rng & g ) { return g.p( .3 ) ? g.i( -9, 9 ) : g.i( -( 1l << 28 ), 1l << 28 ); } static ld res() { return 0; } static ld eps() { return 0; } static char const * name() { return "long long"; } };
template<> struct num_<int> { static int make( vm::Rng & g ) { return int( g.i( -50, 50 ) ); } static ld res() { return 0; } static ld eps() { return 0; } static char const * name() { return "int"; } };
template< class R, int I, int F > struct num_< num::fixed_point<R, I, F> > { using X = num::fixed_point<R, I, F>; static X make( vm::Rng & g ) { return X( X::construct, R( g.i( -( 8 << F ), 8 << F ) ) ); } static ld res() { return std::ldexp( 1.0L, -F ); } static ld eps() { return 0; } static char const * name() { return "fixed_point"; } };

template< class X > struct is_matrix : std::false_type {};
template< class T, int N, int M > struct is_matrix< num::matrix<T, N, M> > : std::true_type { static constexpr int r = N, c = M; };

template< class X > LM toLM( X const & m )
{
    if constexpr( is_matrix<X>::value )
    {
        LM r( is_matrix<X>::r, is_matrix<X>::c );
        for ( int i = 0; i < r.r; ++i ) for ( int j = 0; j < r.c; ++j ) r( i, j ) = lossless( m( i, j ) );
        return r;
    }
    else { LM r( 1, 1 ); r( 0, 0 ) = lossless( m ); return r; }
}
inline std::string showL( LM const & m )
{
    std::string s = vm::fmt( "%dx%d[", m.r, m.c );
    for ( int i = 0; i < m.r; ++i ) for ( int j = 0; j < m.c; ++j ) s += vm::fmt( "%s%.9Lg", ( i || j ) ? ( j ? " " : "; " ) : "", m( i, j ) );
    return s + "]";
}
struct Plus  { template< class A, class B > static auto go( A const & a, B const & b ) -> decltype( a + b ) { return a + b; } static constexpr char op = '+'; };
struct Minus { template< class A, class B > static auto go( A const & a, B const & b ) -> decltype( a - b ) { return a - b; } static constexpr char op = '-'; };
struct Times { template< class A, class B > static auto go( A const & a, B const & b ) -> decltype( a * b ) { return a * b; } static constexpr char op = '*'; };
template< class Op, class A, class B, class = void > struct can : std::false_type {};
template< class Op, class A, class B > struct can< Op, A, B, std::void_t< decltype( Op::go( std::declval<A const &>(), std::declval<B const &>() ) ) > > : std::true_type {};

template< class T > struct as_double_ { using type = T; };
template< class R, int I, int F > struct as_double_< num::fixed_point<R, I, F> > { using type = double; };
template< class T, int N, int M > struct as_double_< num::matrix<T, N, M> > { using type = num::matrix<typename as_double_<T>::type, N, M>; };
template< class T > using as_double_t = typename as_double_<T>::type;

// the mathematical definition; returns false where there is none for these shapes.
inline bool define( char op, LM const & a, LM const & b, LM & want, LM & mag )
{
    if ( op == '*' && a.c == b.r ) { want = mul( a, b ); mag = mul( a.abs(), b.abs() ); return true; }
    bool sa = a.r == 1 && a.c == 1, sb = b.r == 1 && b.c == 1;
    if ( !sa && !sb && ( op == '*' || a.r != b.r || a.c != b.c ) ) return false;
    LM const & shape = sa ? b : a;
    want = LM( shape.r, shape.c ); mag = want;
    for ( size_t i = 0; i < want.v.size(); ++i )
    {
        ld x = sa ? a.v[0] : a.v[i], y = sb ? b.v[0] : b.v[i];
        want.v[i] = op == '+' ? x + y : op == '-' ? x - y : x * y;
        mag.v[i] = op == '*' ? std::fabs( x * y ) : std::fabs( x ) + std::fabs( y );
    }
    return true;
}
template< class T > bool agree( LM const & got, LM const & want, LM const & mag, int terms )
{
    if ( got.r != want.r || got.c != want.c ) return false;
    for ( size_t i = 0; i < got.v.size(); ++i )
        if ( !vm::close( got.v[i], want.v[i], ( terms + 1 ) * ( num_<T>::eps() * mag.v[i] + num_<T>::res() ) ) ) return false;
    return true;
}
template< class M > std::unique_ptr<M> heaped( vm::Rng & g )
{
    if constexpr( is_matrix<M>::value ) { auto p = std::make_unique<M>( typename M::value_type( 0 ) ); for ( int i = 0; i < p->rows(); ++i ) for ( int j = 0; j < p->columns(); ++j ) ( *p )( i, j ) = num_<typename M::value_type>::make( g ); return p; }
    else return std::make_unique<M>( num_<M>::make( g ) );
}
struct Tol { ld eps, res; char const * name; };
inline bool agree_( Tol t, LM const & got, LM const & want, LM const & mag, int terms )
{
    if ( got.r != want.r || got.c != want.c ) return false;
    for ( size_t i = 0; i < got.v.size(); ++i ) if ( !vm::close( got.v[i], want.v[i], ( terms + 1 ) * ( t.eps * mag.v[i] + t.res ) ) ) return false;
    return true;
}
// judge one result; what says how it was obtained
__attribute__((noinline)) inline void judge( Tol t, char op, char const * what, LM const & a, LM const & b, LM const & got )
{
    LM want, mag; vm::event();
    if ( !define( op, a, b, want, mag ) ) { vm::fail( vm::fmt( "nonsense-%c", op ), "%s: %s %c %s is accepted and gives %s, which no definition covers", t.name, showL( a ).c_str(), op, showL( b ).c_str(), showL( got ).c_str() ); return; }
    if ( !agree_( t, got, want, mag, a.c + 1 ) )
        vm::fail( vm::fmt( "%s%c", what, op ), "%s (%s): %s %c %s gives %s, expected %s", t.name, what, showL( a ).c_str(), op, showL( b ).c_str(), showL( got ).c_str(), showL( want ).c_str() );
}
__attribute__((noinline)) inline void account( Tol t, char op, LM const & a, LM const & b, LM const & a2, LM const & b2, LM const & got )
{
    if ( a2.v != a.v || b2.v != b.v ) vm::fail( "operand-changed", "%s: %s %c %s changed its operands", t.name, showL( a ).c_str(), op, showL( b ).c_str() );
    vm::counter( vm::fmt( "op%c_checked", op ) );
    uint64_t h = op * 1000 + a.r * 100 + a.c * 10 + b.r + 31 * b.c; for ( auto v : a.v ) h = vm::hashd( h, double( v ) ); for ( auto v : b.v ) h = vm::hashd( h, double( v ) );
    vm::distinct( h );
    vm::sample( "%s %s %c %s = %s", t.name, showL( a ).c_str(), op, showL( b ).c_str(), showL( got ).c_str() );
}
template< class A > struct Raw { A * p; explicit Raw( A const & v ) : p( new A( v ) ) {} ~Raw() { delete p; } };
template< class Op, class T, class A, class B > void binop( vm::Rng & g )
{
    // fixed_point converts from anything, so whether it takes part is decided by double in its place
    if constexpr( can<Op, as_double_t<A>, as_double_t<B>>::value )
    {
        const Tol t{ num_<T>::eps(), num_<T>::res(), num_<T>::name() };
        auto pa = heaped<A>( g ); auto pb = heaped<B>( g );
        const LM a = toLM( *pa ), b = toLM( *pb );
        using R = std::decay_t<decltype( Op::go( *pa, *pb ) )>;
        LM got;
        { Raw<R> r( Op::go( *pa, *pb ) ); got = toLM( *r.p ); }
        judge( t, Op::op, "op", a, b, got );
        account( t, Op::op, a, b, toLM( *pa ), toLM( *pb ), got );
        // result assigned to an operand, the same object on both sides
        if constexpr( std::is_same<R, A>::value ) { Raw<A> q( *pa ); *q.p = Op::go( *q.p, *pb ); judge( t, Op::op, "alias-left", a, b, toLM( *q.p ) ); }
        if constexpr( std::is_same<R, B>::value ) { Raw<B> q( *pb ); *q.p = Op::go( *pa, *q.p ); judge( t, Op::op, "alias-right", a, b, toLM( *q.p ) ); }
        if constexpr( std::is_same<A, B>::value )
        {
            Raw<A> q( *pa );
            judge( t, Op::op, "twice", a, a, toLM( Op::go( *q.p, *q.p ) ) );
            if constexpr( std::is_same<R, A>::value ) { *q.p = Op::go( *q.p, *q.p ); judge( t, Op::op, "alias-both", a, a, toLM( *q.p ) ); }
        }
    }
}
// all pairs of the given shapes (rows*10+columns), and every shape with a scalar on either side
template< class T, int K1, int... K2 > void sweep_row( vm::Rng & g, std::integer_sequence<int, K2...> )
{
    using A = num::matrix<T, K1 / 10, K1 % 10>;
    ( ( binop<Plus, T, A, num::matrix<T, K2 / 10, K2 % 10>>( g ), binop<Minus, T, A, num::matrix<T, K2 / 10, K2 % 10>>( g ), binop<Times, T, A, num::matrix<T, K2 / 10, K2 % 10>>( g ) ), ... );
    binop<Plus, T, A, T>( g ); binop<Minus, T, A, T>( g ); binop<Times, T, A, T>( g );
    binop<Plus, T, T, A>( g ); binop<Minus, T, T, A>( g ); binop<Times, T, T, A>( g );
}
template< class T, int... K1 > void sweep_( vm::Rng & g, std::integer_sequence<int, K1...> s ) { ( sweep_row<T, K1>( g, s ), ... ); }
using many = std::integer_sequence<int, 11, 12, 13, 21, 22, 23, 31, 32, 33, 14, 41, 44, 24>;
using some = std::integer_sequence<int, 11, 12, 13, 21, 22, 31, 23, 33>;
template< class T, class S > void sweep( vm::Rng & g ) { sweep_<T>( g, S() ); }
#endif
