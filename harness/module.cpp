// Operations of Modules.tla
#include "drv.h"
#include "probe.h"
#include "lube/module.h"
#include <algorithm>
using namespace libube;

static ProbeLog gLog;
static module* gLoader[4];
static bool gFile[4];
namespace { struct Place { int slot; file* f; } gInst[16]; }
static void forget()
{
    for (auto& m : gLoader) { delete m; m = 0; }
    for (auto& i : gInst) { i.slot = 0; i.f = 0; }
    gLog.n = gLog.ids = 0;
    char b[40];
    snprintf(b, sizeof b, "%lx", (unsigned long)&gLog);
    setenv("VT_PROBE", b, 1);
}
namespace { struct ForgetAtStart { ForgetAtStart() { atStart().push_back(forget); } } gForget; }
// What was told since last time, in order of number
static void told(Ctx& c, bool refused)
{
    std::vector<long> q;
    if (refused) q.push_back(0);
    for (int i = 0; i < gLog.n; i++) q.push_back(gLog.ev[i]);
    gLog.n = 0;
    std::sort(q.begin(), q.end());
    c.r("\"q\",[");
    for (size_t i = 0; i < q.size(); i++) c.r(i ? ",%ld" : "%ld", q[i]);
    c.r("]");
}

OP(mload)
{
    bool refused = false;
    int k = op[1].i;
    gFile[k] = op[3].i;
    try { gLoader[k] = op[3].i ? new filemodule(op[2].s.c_str()) : new module(op[2].s.c_str()); }
    catch (std::exception& e) { refused = true; }
    told(c, refused);
}
static void create(Ctx& c, int k, const var* arg)
{
    bool refused = false;
    int p = 1;
    while (gInst[p].slot) p++;
    try {
        Module* m = gFile[k] ? (arg ? &((filemodule*)gLoader[k])->create(*arg) : &((filemodule*)gLoader[k])->create())
                             : (arg ? &gLoader[k]->create(*arg) : &gLoader[k]->create());
        gInst[p].f = dynamic_cast<file*>(m);
    }
    catch (std::exception& e) { refused = true; }
    // One that was made and not handed out takes a place too
    if (!refused || (gLog.n && gLog.ev[gLog.n - 1] / 100000 == 2)) gInst[p].slot = k;
    told(c, refused);
}
OP(mcreate) { operand(op[2], c, [&](var& v) { create(c, op[1].i, &v); }); }
OP(mcreate0) { create(c, op[1].i, 0); }
OP(muse) { operand(op[2], c, [&](var& v) { c.V[op[3].i] = gInst[op[1].i].f->read(v); }); }
OP(mput) { operand(op[2], c, [&](var& v) { gInst[op[1].i].f->write(v, nil); }); }
OP(mkill)
{
    int k = op[1].i;
    delete gLoader[k];
    gLoader[k] = 0;
    for (auto& i : gInst) if (i.slot == k) { i.slot = 0; i.f = 0; }
    told(c, false);
}
