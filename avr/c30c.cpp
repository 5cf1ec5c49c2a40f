#define REG8 0xb3
#include "c30.cpp"
