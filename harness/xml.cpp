// Operations of Xml.tla
#include "drv.h"
#include "lube/module.h"
#include "lube/data.h"
#include <fstream>
#include <iostream>
#include <sstream>
using namespace libube;

static std::string name(const char* f) { return std::string(scratch()) + "/" + f; }
struct Hush {                      // it says on std::cout what it refuses
    std::ostringstream o;
    std::streambuf* b;
    Hush() : b(std::cout.rdbuf(o.rdbuf())) {}
    ~Hush() { std::cout.rdbuf(b); }
};
static bool isText(const var& v) { return v && v.atype() == TYPE_CHAR && v.heap(); }
// Take adjacent runs of text together
static void join(var e)
{
    if (e.size() != 4 || isText(e)) return;
    var data = e.at(DATA);
    if (!data) return;
    bool adjacent = false;
    for (int i = 0; i < data.size(); i++) {
        var d = data.at(i);
        if (!isText(d)) join(d);
        else if (i && isText(data.at(i - 1))) adjacent = true;
    }
    if (!adjacent) return;
    var r;
    std::string t;
    bool text = false;
    for (int i = 0; i < data.size(); i++) {
        var d = data.at(i);
        if (isText(d)) { t.append(d.str(), d.size()); text = true; }
        if (text && (!isText(d) || i + 1 == data.size())) {
            var s((ind)t.size(), t.data());
            r[r.size()] = s;
            t.clear();
            text = false;
        }
        if (!isText(d)) r[r.size()] = d;
    }
    e[DATA] = r;
}
static void read(Ctx& c, file& f, const char* n, int z)
{
    var r = f.read(name(n).c_str());
    join(r);
    c.V[z] = r;
}
// One module for the whole program: documents do not depend on those before
static filemodule* gMod;
static file* gFile;
static void forget() { delete gMod; gMod = 0; gFile = 0; }
namespace { struct ForgetAtStart { ForgetAtStart() { atStart().push_back(forget); } } gForget; }
static file& mod() { if (!gMod) { gMod = new filemodule("xml"); gFile = &gMod->create(); } return *gFile; }

OP(xread)
{
    Hush h;
    std::string t = op[1].bytes();
    { std::ofstream o(name("in.xml"), std::ios::binary); o.write(t.data(), t.size()); }
    read(c, mod(), "in.xml", op[2].i);
}
OP(xmiss) { read(c, mod(), "none.xml", op[1].i); }
OP(xround)
{
    Hush h;
    mod().write(name("out.xml").c_str(), c.V[op[1].i]);
    read(c, mod(), "out.xml", op[2].i);
}
