#define HISTORIES
#include "c08.cpp"
