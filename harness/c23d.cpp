#define DSFMT
#include "c23.cpp"
