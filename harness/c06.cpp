#define REDUCIBLE
#include "c05.cpp"
