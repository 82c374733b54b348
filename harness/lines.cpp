// Operations of Lines.tla
#include "drv.h"
#include "lube/module.h"
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace libube;

static std::istream* gIn[4];
static void forget() { for (auto& p : gIn) { delete p; p = 0; } }
namespace { struct ForgetAtStart { ForgetAtStart() { atStart().push_back(forget); } } gForget; }
static std::string name(const char* f) { return std::string(scratch()) + "/" + f; }
static void put(const std::string& f, const std::string& bytes) { std::ofstream o(f, std::ios::binary); o.write(bytes.data(), bytes.size()); }

OP(lopen)
{
    int k = op[1].i - 1;
    std::string t = op[3].bytes();
    std::istream* n;
    if (op[2].is("str")) n = new std::istringstream(t);
    else if (op[2].is("file")) {
        std::string f = name(k ? "in1" : "in0");
        unlink(f.c_str());          // whoever reads the old one goes on doing so
        put(f, t);
        n = new std::ifstream(f, std::ios::binary);
    }
    else {
        var v = "";
        v.resize(t.size());
        memcpy(v.ptr<char>(), t.data(), t.size());
        n = new varstream(v);
    }
    delete gIn[k];
    gIn[k] = n;
}
OP(lget) { walk(c.V[op[1].i], op[2], 0, [&](var& l) { var r = l.getline(*gIn[op[3].i - 1]); c.r("\"q\",%d", (int)(r ? 1 : 0)); }); }
OP(lchar) { c.r("\"q\",%d", gIn[op[1].i - 1]->get()); }

static file& txt(filemodule& m) { return m.create(); }
OP(lput) { put(name("disk"), op[1].bytes()); }
OP(ldel) { unlink(name("disk").c_str()); }
OP(lread) { filemodule m("txt"); var r = txt(m).read(name("disk").c_str()); c.V[op[1].i] = r; }
OP(lwrite)
{
    filemodule m("txt");
    txt(m).write(name("disk").c_str(), c.V[op[1].i]);
    std::ifstream i(name("disk"), std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    c.r("\"q\",[");
    for (size_t k = 0; k < s.size(); k++) c.r(k ? ",%d" : "%d", (int)s[k]);
    c.r("]");
}
OP(lnodir) { filemodule m("txt"); txt(m).write(name("no/such").c_str(), c.V[op[1].i]); }
