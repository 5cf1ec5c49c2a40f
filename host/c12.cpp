// C12: every step form of a biquad computes its difference equation.
#include "dsp.hpp"
#include "dsp/biquad.hpp"
#include "num/fixed-point.hpp"
#include <limits>

template< class T, class S > dsp::BiQuadT<T, S> mk( Co const & c )
{
    using Q = dsp::BiQuadT<T, S>; typename Q::B b{ S( c.b0 ), S( c.b1 ), S( c.b2 ) }; typename Q::A a{ S( c.a1 ), S( c.a2 ) };
    return Q( b, a );
}
static const char * FORM[] = { "default", "direct-form-II", "transposed", "default/direct-form-II mixed" };
static void bad( int form, size_t n, ld got, ld want, ld tol, Co const & c, const char * t )
{
    vm::fail( vm::fmt( "step-%s", form == 0 ? "default" : form == 1 ? "df2" : form == 2 ? "transposed" : "mixed" ), "%s step of %s filter %s: y[%zu] is %.12Lg, the difference equation gives %.12Lg (tolerance %.3Lg)", FORM[ form ], t, show( c ).c_str(), n, got, want, tol );
}
template< class T, class S > void run( vm::Rng & g, const char * t )
{
    Co c = rounded<S>( gen( g ) ); if ( c.a1 != ld( T( c.a1 ) ) ) c = rounded<T>( c );
    long n = g.p( .1 ) ? g.i( 150, 400 ) : g.i( 4, 60 );
    auto x = signal<T>( g, n ); if ( g.p( .25 ) ) x = coincide<T>( g, mk<T, S>( c ), n, []( auto & q, T v ) { return T( q.step( v ) ); } );
    ld eps = std::max( ld( std::numeric_limits<T>::epsilon() ), ld( std::numeric_limits<S>::epsilon() ) ); ld res = std::numeric_limits<T>::min();
    Ref r( c, x, eps, res );
    uint64_t h = hashco( c ); for ( auto v : x ) h = vm::hashd( h, double( v ) );
    bool cmp = false;
    for ( int form = 0; form < 4; ++form )
    {
        auto q = mk<T, S>( c );
        for ( size_t i = 0; i < x.size(); ++i )
        {
            if ( std::fabs( r.y[i] ) > 1e25L || std::fabs( r.w[i] ) > 1e25L ) break;      // an unstable filter left the range of the type
            T v = T( x[i] );
            ld y = form == 0 ? ld( q.step( v ) ) : form == 1 ? ld( q.step_df2( v ) ) : form == 2 ? ld( q.step_df2_transposed( v ) ) : g.p( .5 ) ? ld( q.step( v ) ) : ld( q.step_df2( v ) );
            vm::event();
            if ( !vm::close( y, r.y[i], r.tol[i] ) ) { bad( form, i, y, r.y[i], r.tol[i], c, t ); return; }
            if ( r.tol[i] < 1e-3L * ( std::fabs( r.y[i] ) + 1e-30L ) ) cmp = true;
        }
    }
    if ( cmp ) vm::distinct( h );
    vm::sample( "%s filter %s, %ld samples, y[%ld]=%.9Lg", t, show( c ).c_str(), n, n - 1, r.y.back() );
}
GROUP( dbl, 4000, 150000 ) { run<double, double>( g, "double" ); }
GROUP( flt, 4000, 150000 ) { run<float, float>( g, "float" ); }
GROUP( mixed, 2000, 60000 ) { run<double, float>( g, "double with float coefficients" ); run<float, double>( g, "float with double coefficients" ); }
GROUP( longd, 500, 20000 ) { run<long double, long double>( g, "long double" ); }
// integer coefficients and samples: the arithmetic is exact in every form
GROUP( exact, 3000, 100000 )
{
    Co c; c.b0 = g.i( -9, 9 ); c.b1 = g.i( -9, 9 ); c.b2 = g.i( -9, 9 ); c.a1 = g.i( -2, 2 ); c.a2 = g.i( -2, 2 );
    auto x = std::vector<ld>(); for ( int i = 0; i < 20; ++i ) x.push_back( ld( g.i( -9, 9 ) ) );
    Ref r( c, x, 0, 0 ); uint64_t h = hashco( c );
    for ( auto v : x ) h = vm::hashd( h, double( v ) );
    for ( int form = 0; form < 4; ++form )
    {
        auto q = mk<double, double>( c );
        for ( size_t i = 0; i < x.size(); ++i )
        {
            if ( std::fabs( r.y[i] ) > 1e12L || std::fabs( r.w[i] ) > 1e12L ) break;
            double v = double( x[i] ), y = form == 0 ? q.step( v ) : form == 1 ? q.step_df2( v ) : form == 2 ? q.step_df2_transposed( v ) : i % 3 ? q.step( v ) : q.step_df2( v ); vm::event();
            if ( y != r.y[i] ) { bad( form, i, y, r.y[i], 0, c, "integer-valued" ); break; }
        }
    }
    vm::distinct( h );
}
// default-constructed and b-only filters
GROUP( partial, 300, 5000 )
{
    using Q = dsp::BiQuadT<double>; Q z, zt; Q f( Q::B{ g.uni( -2, 2 ), g.uni( -2, 2 ), g.uni( -2, 2 ) } ); auto b = f.coeff_b(); double x1 = 0, x2 = 0;
    for ( int i = 0; i < 12; ++i )
    {
        double x = g.uni( -1, 1 ), want = b.b0 * x + b.b1 * x1 + b.b2 * x2, y = i % 2 ? f.step( x ) : f.step_df2( x ); vm::event( 2 );
        if ( z.step( x ) != 0 || zt.step_df2_transposed( x ) != 0 ) vm::fail( "default-constructed", "a default-constructed filter does not return 0" );
        if ( !vm::close( y, want, 1e-14 ) ) vm::fail( "fir-only", "a filter built from b coefficients only gives %.17g, expected %.17g", y, want );
        x2 = x1; x1 = x;
    }
    vm::distinct( vm::hashd( 5, b.b0 ) );
}
template< int F > void fixed( vm::Rng & g )
{
    using X = num::fixed_point<int32_t, 31 - F, F>; using Q = dsp::BiQuadT<X>; ld res = std::ldexp( 1.0L, -F );
    Co c = gen( g, true, .97L ); c.b0 = g.uni( -2, 2 ); c.b1 = g.uni( -2, 2 ); c.b2 = g.uni( -2, 2 ); c.a1 = std::fabs( c.a1 ) < 2 ? c.a1 : 0;
    auto q = [&]( ld v ) { return X( double( v ) ); };
    X b0 = q( c.b0 ), b1 = q( c.b1 ), b2 = q( c.b2 ), a1 = q( c.a1 ), a2 = q( c.a2 );
    Co k{ b0.as_double(), b1.as_double(), b2.as_double(), a1.as_double(), a2.as_double() };
    long n = g.i( 4, 80 ); std::vector<ld> x; ld amp = std::ldexp( 1.0L, g.i( -2, std::min( 6, 31 - F - 4 ) ) ); for ( long i = 0; i < n; ++i ) x.push_back( X( double( amp * g.uni( -1, 1 ) ) ).as_double() );
    Ref r( k, x, 0, res ); ld lim = std::ldexp( 1.0L, 31 - F - 3 );
    if ( r.ymax > lim || r.wmax * ( 1 + std::fabs( k.a1 ) + std::fabs( k.a2 ) + std::fabs( k.b0 ) + std::fabs( k.b1 ) + std::fabs( k.b2 ) ) > lim || r.tol.back() > lim / 4 ) { vm::counter( "fixed_out_of_range_skipped" ); return; }
    for ( int form = 0; form < 3; ++form )
    {
        Q f( typename Q::B{ b0, b1, b2 }, typename Q::A{ a1, a2 } );
        for ( size_t i = 0; i < x.size(); ++i )
        {
            X v( double( x[i] ) ); ld y = form == 0 ? f.step( v ).as_double() : form == 1 ? f.step_df2( v ).as_double() : f.step_df2_transposed( v ).as_double(); vm::event();
            if ( !vm::close( y, r.y[i], r.tol[i] ) ) { bad( form, i, y, r.y[i], r.tol[i], k, "fixed-point" ); return; }
        }
    }
    uint64_t h = hashco( k ); for ( auto v : x ) h = vm::hashd( h, double( v ) ); vm::distinct( h ); vm::counter( "fixed_runs" );
}
template< class T > void longruns( vm::Rng & g )
{
    Co c = rounded<T>( gen( g, true, .999L ) ); auto q = mk<T, T>( c ), r = q, t = q; std::string nm = "filter " + show( c );
    steady<T>( g, c, "step-default", nm, [&]( T v ) { return q.step( v ); } ); steady<T>( g, c, "step-df2", nm, [&]( T v ) { return r.step_df2( v ); } ); steady<T>( g, c, "step-transposed", nm, [&]( T v ) { return t.step_df2_transposed( v ); } );
}
GROUP( longrun, 25, 400 ) { longruns<double>( g ); longruns<float>( g ); }
GROUP( fixed16, 1500, 50000 ) { fixed<16>( g ); fixed<20>( g ); }
VMON_MAIN
