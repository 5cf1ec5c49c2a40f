#define REG8 0x4a
#include "c30.cpp"
