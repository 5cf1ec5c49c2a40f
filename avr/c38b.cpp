#include "fw.hpp"
#include "../common/c38.hpp"
GV int32_t in[24], out[24];
#define S( name, T, inv ) FN void name( u8 op ) { c38::matrices<T, inv>( op, in, out ); }
S( m_i16, int16_t, false ) S( m_i32, int32_t, false )
