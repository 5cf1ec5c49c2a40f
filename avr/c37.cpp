#include "fw.hpp"
using namespace mcu::atmega328;
#define OPS( P, n ) \
    FN void led_on_##P##n() { led<port::P, n>::on(); } FN void led_off_##P##n() { led<port::P, n>::off(); } FN void led_toggle_##P##n() { led<port::P, n>::toggle(); } FN void led_enable_##P##n() { led<port::P, n>::enable(); } \
    FN void dir_set_##P##n() { gpio<port::P>::p<n>::dir::set(); } FN void dir_clear_##P##n() { gpio<port::P>::p<n>::dir::clear(); } FN void dir_toggle_##P##n() { gpio<port::P>::p<n>::dir::toggle(); } FN void dir_write_##P##n( u8 v ) { gpio<port::P>::p<n>::dir::write( v & 1 ); } FN u8 dir_read_##P##n() { return gpio<port::P>::p<n>::dir::read(); } \
    FN void out_set_##P##n() { gpio<port::P>::p<n>::out::set(); } FN void out_clear_##P##n() { gpio<port::P>::p<n>::out::clear(); } FN void out_toggle_##P##n() { gpio<port::P>::p<n>::out::toggle(); } FN void out_write_##P##n( u8 v ) { gpio<port::P>::p<n>::out::write( v & 1 ); } FN u8 out_read_##P##n() { return gpio<port::P>::p<n>::out::read(); } \
    FN u8 inp_read_##P##n() { return gpio<port::P>::p<n>::inp::read(); }
#define PORT8( P ) OPS( P, 0 ) OPS( P, 1 ) OPS( P, 2 ) OPS( P, 3 ) OPS( P, 4 ) OPS( P, 5 ) OPS( P, 6 ) OPS( P, 7 ) \
    FN u8 pin_read_##P() { return gpio<port::P>::pin::read(); } FN u8 ddr_read_##P() { return gpio<port::P>::ddr::read(); } FN u8 port_read_##P() { return gpio<port::P>::port::read(); } FN void ddr_write_##P( u8 v ) { gpio<port::P>::ddr::write( v ); } FN void port_write_##P( u8 v ) { gpio<port::P>::port::write( v ); }
PORT8( B ) PORT8( C ) PORT8( D )
FN void pwm_init() { tc1_pwm_on_a_pb1::init(); }
FN void pwm_write( u16 v ) { tc1_pwm_on_a_pb1::write( v ); }
FN u16 pwm_min() { return tc1_pwm_on_a_pb1::value_min; } FN u16 pwm_max() { return tc1_pwm_on_a_pb1::value_max; }
// start-up as a program does it
FN void start_up() { led<port::B, 5>::enable(); led<port::D, 7>::enable(); tc1_pwm_on_a_pb1::init(); led<port::B, 5>::on(); tc1_pwm_on_a_pb1::write( 777 ); led<port::D, 7>::toggle(); }
