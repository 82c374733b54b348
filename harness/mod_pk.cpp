#define PROBE 3
#include "mod_probe.h"
#include <cstring>
// A module of another kind
class Probe : public Module
{
public:
    Probe(var iArg) {
        mArg = iArg;
        if (iArg.defined() && iArg.heap() && iArg.atype() == TYPE_CHAR && iArg.size() == 5 && !memcmp(iArg.str(), "throw", 5)) throw std::runtime_error("refused");
        probeLog()->say(2, PROBE, mId = ++probeLog()->ids);
    }
    virtual ~Probe() { probeLog()->say(3, PROBE, mId); }
private:
    var mArg;
    int mId;
};
namespace libube {
    void factory(Module** oModule, var iArg)
    {
        if (iArg.defined() && iArg.heap() && iArg.atype() == TYPE_CHAR && iArg.size() == 4 && !memcmp(iArg.str(), "null", 4)) return;
        *oModule = new Probe(iArg);
    }
}
