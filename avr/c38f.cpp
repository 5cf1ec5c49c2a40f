#include "fw.hpp"
#include "../common/c38.hpp"
GV int32_t in[160], out[24];
using fp11 = num::fixed_point<int32_t, 11>;
FN void k_fp11_21( u8 n ) { c38::kalman<fp11, 2, 1>( n, in, out ); }
FN void k_flt_21( u8 n ) { c38::kalman<float, 2, 1>( n, in, out ); }
