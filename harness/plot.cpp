// Operations of Plot.tla.  A stand-in for gnuplot, found by PATH, keeps what
// it is sent.
#include "drv.h"
#include "lube/module.h"
#include <fstream>
#include <sys/stat.h>
using namespace libube;

static filemodule* gPlot;
static std::vector<file*> gIn;
static std::string gPath;
static void forget() { gIn.clear(); delete gPlot; gPlot = 0; if (!gPath.empty()) { setenv("PATH", gPath.c_str(), 1); gPath.clear(); } }
namespace { struct ForgetAtStart { ForgetAtStart() { atStart().push_back(forget); } } gForget; }
static std::string name(size_t k) { return std::string(scratch()) + "/sent" + std::to_string(k); }

OP(pnew)
{
    if (gPath.empty()) {
        std::string bin = std::string(scratch()) + "/bin";
        mkdir(bin.c_str(), 0755);
        { std::ofstream o(bin + "/gnuplot"); o << "#!/bin/sh\nexec cat > \"$VT_SENT\"\n"; }
        chmod((bin + "/gnuplot").c_str(), 0755);
        gPath = getenv("PATH");
        char b[4096];
        if (bin[0] != '/') bin = std::string(realpath(bin.c_str(), b));
        setenv("PATH", (bin + ":" + gPath).c_str(), 1);
    }
    char b[4096];
    std::string to = name(gIn.size());
    if (to[0] != '/') to = std::string(realpath(scratch(), b)) + to.substr(to.rfind('/'));
    setenv("VT_SENT", to.c_str(), 1);
    if (!gPlot) gPlot = new filemodule("gnuplot");
    gIn.push_back(&gPlot->create());
}
OP(pwrite)
{
    var f;
    std::string n = op[3].bytes();
    if (n.size()) f = n.c_str();
    gIn.at(op[1].i - 1)->write(f, c.V[op[2].i]);
}
OP(pread) { gIn.at(op[1].i - 1)->read("x"); }
OP(pend)
{
    size_t n = gIn.size();
    forget();                    // which waits for what was started
    c.r("\"q\",[");
    for (size_t k = 0; k < n; k++) {
        std::ifstream i(name(k), std::ios::binary);
        std::string l;
        bool first = true;
        c.r(k ? ",[" : "[");
        while (std::getline(i, l)) {
            size_t p = l.find_first_not_of(' ');
            if (p == l.npos) continue;
            c.r(first ? "[" : ",[");
            first = false;
            for (size_t m = p; m < l.size(); m++) c.r(m > p ? ",%d" : "%d", (int)l[m]);
            c.r("]");
        }
        c.r("]");
    }
    c.r("]");
}
