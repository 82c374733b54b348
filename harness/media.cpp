// Operations of Media.tla
#include "drv.h"
#include "lube/module.h"
#include "lube/graph.h"
#include <algorithm>
#include <fstream>
#include <initializer_list>
using namespace libube;

static filemodule* gSnd;
static graphmodule* gGraph;
static file* gAu[3];
static std::vector<graph*> gGr;
static void forget()
{
    for (auto& p : gAu) p = 0;
    gGr.clear();
    delete gSnd; gSnd = 0;
    delete gGraph; gGraph = 0;
}
namespace { struct ForgetAtStart { ForgetAtStart() { atStart().push_back(forget); } } gForget; }
static std::string name(const char* pre, int k) { return std::string(scratch()) + "/" + pre + std::to_string(k); }

OP(anew)
{
    if (!gSnd) gSnd = new filemodule("snd");
    int v = op[2].i;
    gAu[op[1].i] = v ? &gSnd->create(c.V[v]) : &gSnd->create();
}
OP(awrite) { gAu[op[1].i]->write(name("wav", op[2].i).c_str(), c.V[op[3].i]); }
OP(apat)
{
    int ch = op[4].i, n = op[5].i, size = ch ? ch * n : n;
    var x = op[3].is("f") ? var(0.0f) : var(0.0);
    x.array();
    x.resize(size);
    for (long i = 0; i < size; i++) {
        double d = ((op[6].i * i + op[7].i) % 65536 - 32768) / 32768.0;
        if (op[3].is("f")) x[(int)i] = (float)d; else x[(int)i] = d;
    }
    gAu[op[1].i]->write(name("wav", op[2].i).c_str(), ch ? x.view({ch, n}) : x);
}
OP(aread)
{
    const var r = gAu[op[1].i]->read(name("wav", op[2].i).c_str());
    if (!r.heap() || r.atype() != TYPE_FLOAT || r.dim() > 2) { c.r("\"q\",\"not an array of floats\""); return; }
    if (r.dim() == 2) c.r("\"q\",%d,%d,[", r.shape(0), r.shape(1));
    else c.r("\"q\",1,%d,[", (int)r.size());
    for (int i = 0; i < r.size(); i++) {
        double d = r.at(i).get<float>() * 32768.0;
        if (d != std::floor(d)) c.r(i ? ",\"%.17g\"" : "\"%.17g\"", d);
        else c.r(i ? ",%ld" : "%ld", (long)d);
    }
    c.r("]");
}
OP(aload) { c.V[op[3].i] = gAu[op[1].i]->read(name("wav", op[2].i).c_str()); }
OP(agarb) { std::ofstream o(name("wav", op[1].i)); o << "this is no audio file, it only takes up a little space on the disk, enough for a header"; }
OP(alost) { var x = 0.5f; gAu[op[1].i]->write((std::string(scratch()) + "/none/x.wav").c_str(), x); }

OP(gnew)
{
    if (!gGraph) gGraph = new graphmodule();
    gGr.push_back(&gGraph->create());
}
static graph& gr(const J& j) { return *gGr.at(j.i - 1); }
OP(gvert) { ind v = gr(op[1]).addVertex(); c.r("\"q\",%d", (int)v); }
OP(gedge) { gr(op[1]).addEdge((int)op[2].i, (int)op[3].i); }
OP(gwrite) { gr(op[1]).writeGraphViz(name("dot", op[2].i).c_str()); }
OP(glost) { gr(op[1]).writeGraphViz((std::string(scratch()) + "/none/x.dot").c_str()); }
OP(gfile)
{
    std::ifstream i(name("dot", op[1].i));
    std::string t((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    size_t a = t.find('{'), b = t.rfind('}');
    if (t.compare(0, 7, "digraph") || a == t.npos || b == t.npos || b < a) { c.r("\"q\",\"not a graph\""); return; }
    std::vector<long> vs;
    std::vector<std::pair<long, long>> es;
    bool odd = false;
    // statements end at a semicolon or a line
    std::string st;
    for (size_t p = a + 1; p <= b; p++) {
        if (t[p] != ';' && t[p] != '\n' && p < b) { st += t[p]; continue; }
        long x, y;
        int n = 0;
        if (st.find_first_not_of(" \t") != st.npos) {
            if (sscanf(st.c_str(), " %ld -> %ld %n", &x, &y, &n) == 2 && !st[n]) es.push_back({x, y});
            else if (sscanf(st.c_str(), " %ld %n", &x, &n) == 1 && n && !st[n]) vs.push_back(x);
            else odd = true;
        }
        st.clear();
    }
    if (odd) { c.r("\"q\",\"something else\""); return; }
    std::sort(vs.begin(), vs.end());
    std::sort(es.begin(), es.end());
    c.r("\"q\",[");
    for (size_t k = 0; k < vs.size(); k++) c.r(k ? ",%ld" : "%ld", vs[k]);
    c.r("],[");
    for (size_t k = 0; k < es.size(); k++) c.r(k ? ",[%ld,%ld]" : "[%ld,%ld]", es[k].first, es[k].second);
    c.r("]");
}
