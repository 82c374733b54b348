// Operations of Gedcom.tla
#include "drv.h"
#include "lube/module.h"
#include <fstream>
#include <iostream>
#include <unistd.h>
using namespace libube;

static filemodule* gGed;
static file* gIn[3];
static void forget() { for (auto& p : gIn) p = 0; delete gGed; gGed = 0; }
namespace { struct ForgetAtStart { ForgetAtStart() { atStart().push_back(forget); } } gForget; }
static std::string name(int k) { return std::string(scratch()) + "/ged" + std::to_string(k); }
// The reader tells the standard output what it finds
struct GedQuiet : std::streambuf {
    std::streambuf* old;
    GedQuiet() : old(std::cout.rdbuf(this)) {}
    ~GedQuiet() { std::cout.rdbuf(old); std::cout.clear(); }
    int overflow(int c) override { return c == EOF ? 0 : c; }
};

OP(gedput) { std::ofstream o(name(op[1].i), std::ios::binary); std::string t = op[2].bytes(); o.write(t.data(), t.size()); }
OP(geddel) { unlink(name(op[1].i).c_str()); }
OP(gednew) { if (!gGed) gGed = new filemodule("ged"); gIn[op[1].i] = &gGed->create(); }
OP(gedend) { forget(); }
// Whether the keys of one record are those of another is no matter
static void ownKeys(var v, const char* what)
{
    var a = v.at(var(what));
    for (int i = 0; i < a.size(); i++) {
        var o = a.at(i), n;
        for (int k = 0; k < o.size(); k++) n[o.key(k).copy()] = o.at(o.key(k));
        a[i] = n;
    }
}
OP(gedread)
{
    var r;
    { GedQuiet q; r = gIn[op[1].i]->read(name(op[2].i).c_str()); }
    if (r) { ownKeys(r, "Individual"); ownKeys(r, "Family"); }
    c.V[op[3].i] = r;
}
