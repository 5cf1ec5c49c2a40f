// Test firmware: functions the harness calls one by one once main() has reached its break.
#include "mcu/atmega328.hpp"
#define FN extern "C" __attribute__((used, noinline, externally_visible))
#define GV __attribute__((used, externally_visible))   // variables the harness looks at
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t;
int main() { asm volatile( "break" ); for (;;) asm volatile( "" ); }
