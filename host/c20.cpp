// C20: ready-made low-pass and high-pass filter objects.
#include "design.hpp"
#include "dsp/filter.hpp"
#include <memory>
#include <new>

template< class T, template< class > class Flt, FilterResponse R > void one( vm::Rng & g )
{
    using F = Flt<T>; if ( !( std::is_same<typename F::value_type, T>::value ) ) vm::fail( "result-type", "value type" );
    ld eps = std::numeric_limits<T>::epsilon();
    double fs0 = rate( g ); T fs = T( fs0 ), f = T( fs0 * ( g.p( .5 ) ? g.uni( .01, .49 ) : freqRatio( g ) ) ), q = T( g.p( .15 ) ? g.logu( .002, 1000 ) : quality( g, .1, 20, double( f / fs ) ) );
    if ( !( f < fs / 2 ) ) return;
    ld x = PIl * f / fs; Co ideal = coproto( proto( R, 0, q ), std::tan( x ) ); long n = g.p( .1 ) ? g.i( 100, 250 ) : g.i( 5, 60 );
    auto in = signal<T>( g, n ), in2 = signal<T>( g, n ); if ( g.p( .3 ) ) { auto bs = dsp::make_biquad( dsp::biquad_design<R>( T( 0 ), f, fs, q ) ); in = coincide<T>( g, bs, n, []( auto & c, T v ) { return c.step( v ); } ); } ld e = eps * 8 * ( 1 + 2 * x / std::sin( 2 * x ) ), scale = 0; for ( auto v : in ) scale = std::max( scale, std::fabs( v ) ); for ( auto v : in2 ) scale = std::max( scale, std::fabs( v ) );
    // the designs have absolute coefficient errors of some eps; ey in Ref covers relative ones
    Ref r( ideal, in, e, e * scale * .3L ), r2( ideal, in2, e, e * scale * .3L );
    auto nm = [&]{ return vm::fmt( "%s( %.9g, %.9g, %.9g )", R == FilterResponse::low_pass ? "Lpf" : "Hpf", double( f ), double( fs ), double( q ) ); };
    void * m = ::operator new( sizeof( F ) ); memset( m, 0x7B, sizeof( F ) ); asm volatile( "" : : "r"( m ) : "memory" );
    F & a = *new ( m ) F( f, fs, q ); std::unique_ptr<F> b; long split = g.i( 0, n - 1 ); auto bq = dsp::make_biquad( dsp::biquad_design<R>( T( 0 ), f, fs, q ) ); F other( f, fs, q );
    auto bq2 = bq; bool cmp = false; ld xm = 0;
    for ( long i = 0; i < n; ++i )
    {
        size_t k = size_t( i ); T v = T( in[k] ), w = T( in2[k] );
        if ( i == split ) { b = std::make_unique<F>( a ); bq2 = bq; }
        ld y = a( v ), want = bq.step( v ); xm = std::max( xm, std::fabs( in[k] ) ); vm::event( 2 );
        // same design, same recursion: at most rounding apart
        if ( !vm::close( y, want, r.tol[k] ) ) { vm::fail( "filter-vs-design", "%s: output %ld is %.12Lg, the biquad design gives %.12Lg", nm().c_str(), i, y, want ); break; }
        if ( r.tol[k] < .01L * ( std::fabs( r.y[k] ) + scale * 1e-3L ) ) { cmp = true; if ( !vm::close( y, r.y[k], r.tol[k] ) ) { vm::fail( "filter-vs-prototype", "%s: output %ld is %.12Lg, the designed second-order section gives %.12Lg (tolerance %.3Lg)", nm().c_str(), i, y, r.y[k], r.tol[k] ); break; } }
        if ( b ) { ld yb = ( *b )( w ), wb = bq2.step( w ); if ( !vm::close( yb, wb, 4 * ( r.tol.back() + r2.tol.back() ) + eps * 8 * ( std::fabs( wb ) + scale ) ) ) { vm::fail( "copy-not-independent", "a copy of %s taken after %ld samples gives %.12Lg, its own input gives %.12Lg", nm().c_str(), split, yb, wb ); break; } }
        ld yo = other( w ); if ( r2.tol[k] < .01L * ( std::fabs( r2.y[k] ) + scale * 1e-3L ) && !vm::close( yo, r2.y[k], r2.tol[k] ) ) { vm::fail( "objects-not-independent", "a second %s gives %.12Lg, expected %.12Lg", nm().c_str(), yo, r2.y[k] ); break; }
        if ( !std::isfinite( y ) ) { vm::fail( "unbounded", "%s: output %ld is not finite", nm().c_str(), i ); break; }
    }
    a.~F(); ::operator delete( m );
    if ( cmp ) { uint64_t h = hashco( ideal ); for ( auto v : in ) h = vm::hashd( h, double( v ) ); vm::distinct( vm::mix( h, sizeof( T ) ) ); vm::sample( "%s, %ld samples", nm().c_str(), n ); }
}
// long bounded input stays bounded by the sum of the impulse response
template< class T, template< class > class Flt, FilterResponse R > void longrun( vm::Rng & g )
{
    T fs = T( 1000 ), f = T( g.uni( 20, 480 ) ), q = T( g.logu( .3, 8 ) ); Flt<T> flt( f, fs, q ); Co c = coproto( proto( R, 0, q ), std::tan( PIl * f / fs ) );
    ld sum = 0, y1 = 0, y2 = 0; for ( int i = 0; i < 3000; ++i ) { ld x0 = i == 0, x1 = i == 1, x2 = i == 2, y = c.b0 * x0 + c.b1 * x1 + c.b2 * x2 - c.a1 * y1 - c.a2 * y2; sum += std::fabs( y ); y2 = y1; y1 = y; }
    int kind = int( g.i( 0, 2 ) ), n = vm::st().thorough ? 100000 : 20000; double fr = g.uni( 0, .5 );
    for ( int i = 0; i < n; ++i )
    {
        T x = kind == 0 ? T( g.sgn() ) : kind == 1 ? T( std::sin( 2 * M_PI * fr * i ) ) : T( 1 ); ld y = flt( x ); vm::event();
        if ( !( std::fabs( y ) <= sum * 1.02L + 1e-3L ) ) { vm::fail( "unbounded", "%s f=%.9g fs=%.9g Q=%.9g: output %.9Lg after %d samples of magnitude at most 1, the impulse response sums to %.9Lg", rname( R ), double( f ), double( fs ), double( q ), y, i, sum ); break; }
    }
    vm::distinct( vm::mix( hashco( c ), uint64_t( kind ) ) );
}
GROUP( lpfd, 1500, 40000 ) { one<double, dsp::Lpf, FilterResponse::low_pass>( g ); }
GROUP( hpfd, 1500, 40000 ) { one<double, dsp::Hpf, FilterResponse::high_pass>( g ); }
GROUP( lpff, 1500, 40000 ) { one<float, dsp::Lpf, FilterResponse::low_pass>( g ); }
GROUP( hpff, 1500, 40000 ) { one<float, dsp::Hpf, FilterResponse::high_pass>( g ); }
// long monotonous inputs at any cut-off: the filter keeps answering as its biquad design does
template< class T, template< class > class Flt, FilterResponse R > void unchanging( vm::Rng & g )
{
    T fs = T( g.p( .5 ) ? 48000 : g.logu( 1, 1e6 ) ), f = T( fs * g.logu( sizeof( T ) == 4 ? 3e-3 : 1e-5, .45 ) ), q = T( g.p( .3 ) ? g.logu( .01, .4 ) : g.logu( .4, 8 ) ); Flt<T> flt( f, fs, q ); auto bq = dsp::make_biquad( dsp::biquad_design<R>( T( 0 ), f, fs, q ) ); std::vector<double> x = monotonous( g, vm::st().thorough ? 60000 : 12000 ); double xm = 0; for ( auto v : x ) xm = std::max( xm, std::fabs( v ) ); ld tol = ( sizeof( T ) == 4 ? 1e-2L : 1e-6L ) * xm;
    for ( size_t i = 0; i < x.size(); ++i ) { T v = T( x[ i ] ); ld y = flt( v ), w = bq.step( v ); if ( !vm::close( y, w, tol ) ) { vm::fail( "filter-vs-design", "%s f=%.9g fs=%.9g Q=%.9g, long monotonous input: output %zu is %.9Lg, the biquad design gives %.9Lg", rname( R ), double( f ), double( fs ), double( q ), i, y, w ); return; } }
    vm::event( x.size() ); vm::counter( "long_run_samples", x.size() ); vm::distinct( vm::hashd( uint64_t( R ), double( f / fs ) ) );
}
GROUP( monotone, 30, 300 ) { unchanging<double, dsp::Lpf, FilterResponse::low_pass>( g ); unchanging<float, dsp::Lpf, FilterResponse::low_pass>( g ); unchanging<double, dsp::Hpf, FilterResponse::high_pass>( g ); unchanging<float, dsp::Hpf, FilterResponse::high_pass>( g ); }
GROUP( longruns, 12, 100 ) { longrun<double, dsp::Lpf, FilterResponse::low_pass>( g ); longrun<float, dsp::Lpf, FilterResponse::low_pass>( g ); longrun<double, dsp::Hpf, FilterResponse::high_pass>( g ); longrun<float, dsp::Hpf, FilterResponse::high_pass>( g ); }
VMON_MAIN
