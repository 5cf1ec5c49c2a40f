#include "fw.hpp"
using namespace mcu; using namespace mcu::atmega328;
#define S( n, t, max, a, hi, lo ) FN void st_##n( u16 v ) { set( t( v ) ); GPIOR2 = 1; } FN u16 cu_##n() { return (u16) current( t{} ); }
#define X( n, s, g, max, a, hi, lo ) FN void st_##n( u16 v ) { s; GPIOR2 = 1; } FN u16 cu_##n() { return (u16) g; }
#define O( n, s, g, a, b ) FN void st_##n( u16 ) { s; GPIOR2 = 1; } FN u16 cu_##n() { return (u16) g; }
#define R( n, g, a, hi, lo ) FN u16 cu_##n() { return (u16) g; }
#define V( e, c )
#include "../common/c32.def"
#undef V
#define V( e, c ) (u8) e,
#undef S
#undef X
#undef O
#undef R
#define S( ... )
#define X( ... )
#define O( ... )
#define R( ... )
extern u8 const volatile codes[]; 
__attribute__((used, externally_visible)) u8 const volatile codes[] = {
#include "../common/c32.def"
};
FN u8 code( u8 i ) { return codes[ i ]; }
