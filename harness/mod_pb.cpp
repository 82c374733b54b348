#define PROBE 2
#define NAME "pb"
#include "mod_pa.cpp"
