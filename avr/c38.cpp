#include "fw.hpp"
#include "../common/c38.hpp"
GV int32_t in[24], out[24];
#define S( name, R, I ) FN void name( u8 op ) { c38::scalar<num::fixed_point<R, I>>( op, in, out ); }
S( f8_3, int8_t, 3 ) S( f8_0, int8_t, 0 ) S( f8_7, int8_t, 7 ) S( f16_7, int16_t, 7 ) S( f16_0, int16_t, 0 ) S( f16_12, int16_t, 12 ) S( f32_15, int32_t, 15 ) S( f32_8, int32_t, 8 ) S( f32_1, int32_t, 1 ) S( f32_0, int32_t, 0 )
