#ifndef PROBE
#define PROBE 1
#define NAME "pa"
#endif
#include "mod_probe.h"
#include <cstring>

// Not in a namespace of its own: other libraries have a class of this name
class Probe : public file
{
public:
    Probe(var iArg) : mNest(0), mLive(false) {
        mArg = iArg;
        bool text = iArg.defined() && iArg.heap() && iArg.atype() == TYPE_CHAR;
        std::string s = text ? std::string(iArg.str(), iArg.size()) : "";
        if (s == "throw") throw std::runtime_error("refused");
        if (PROBE == 1 && (s == "nest" || s == "nestthrow")) {
            mNest = new filemodule("pb");
            try { mNest->create(s.c_str()); if (s == "nestthrow") throw error("refused later"); }
            catch (...) { delete mNest; throw; }
        }
        mId = ++probeLog()->ids;
        probeLog()->say(2, PROBE, mId);
        mLive = true;
    }
    virtual ~Probe() {
        if (!mLive) abort();
        mLive = false;
        probeLog()->say(3, PROBE, mId);
        delete mNest;
    }
    virtual var read(var iFile) {
        if (!mLive) abort();
        var r;
        r[2] = NAME;
        r[1] = iFile;
        r[0] = mArg;
        return r;
    }
    virtual void write(var iFile, var iVar) { if (!mLive) abort(); mArg = iFile; }
private:
    var mArg;
    filemodule* mNest;
    bool mLive;
    int mId;
};
namespace libube {
    void factory(Module** oModule, var iArg)
    {
        if (iArg.defined() && iArg.heap() && iArg.atype() == TYPE_CHAR && iArg.size() == 4 && !memcmp(iArg.str(), "null", 4)) return;
        *oModule = new Probe(iArg);
    }
}
