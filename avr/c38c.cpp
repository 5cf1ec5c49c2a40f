#include "fw.hpp"
#include "../common/c38.hpp"
GV int32_t in[24], out[24];
#define S( name, T, inv ) FN void name( u8 op ) { c38::matrices<T, inv>( op, in, out ); }
S( m_flt, float, true ) S( m_dbl, double, true )
