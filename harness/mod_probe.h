// A module that tells what happens to it, wherever VT_PROBE points to
#include <cstdlib>
#include <stdexcept>
#include "lube/module.h"
#include "probe.h"
using namespace libube;
static ProbeLog* probeLog() { return (ProbeLog*)strtoul(getenv("VT_PROBE"), 0, 16); }
struct ProbeLife {
    ProbeLife() { probeLog()->say(1, PROBE, 0); }
    ~ProbeLife() { probeLog()->say(4, PROBE, 0); }
};
static ProbeLife gLife;
