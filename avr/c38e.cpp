#include "fw.hpp"
#include "../common/c38.hpp"
GV int32_t in[160], out[24];
using fp32 = num::fixed_point<int32_t, 15>;
FN void k_flt_11( u8 n ) { c38::kalman<float, 1, 1>( n, in, out ); }
FN void k_fp32_11( u8 n ) { c38::kalman<fp32, 1, 1>( n, in, out ); }
FN void k_dbl_12( u8 n ) { c38::kalman<double, 1, 2>( n, in, out ); }
