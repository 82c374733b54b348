// A library that is no module
#define PROBE 4
#include "mod_probe.h"
extern "C" int factoryOfNothing() { return 0; }
