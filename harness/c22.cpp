#define DSFMT
#include "c21.cpp"
