#include "fw.hpp"
#include "../common/c38.hpp"
GV int32_t in[24], out[24];
#define S( name, T, inv ) FN void name( u8 op ) { c38::matrices<T, inv>( op, in, out ); }
using fp16 = num::fixed_point<int16_t, 7>; using fp32 = num::fixed_point<int32_t, 15>;
S( m_fp16, fp16, true ) S( m_fp32, fp32, true )
