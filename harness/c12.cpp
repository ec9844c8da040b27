#define BESTBITS
#include "c11.cpp"
