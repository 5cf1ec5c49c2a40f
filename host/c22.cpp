#define TYPE 2
#include "c21.cpp"
