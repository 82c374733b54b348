// Operations of Range.tla
#include "drv.h"
using namespace libube;
typedef std::initializer_list<var> Vars;

OP(range)
{
    operand(op[2], c, [&](var& lo) {
        operand(op[3], c, [&](var& hi) {
            operand(op[4], c, [&](var& st) {
                bool plain = op[4][0].is("L") && op[4][1][0].is("i") && op[4][1][1].i == 1;
                var r;
                if (op[1].is("range")) r = plain ? libube::range(lo, hi) : libube::range(lo, hi, st);
                else r = plain ? libube::irange(lo, hi) : libube::irange(lo, hi, st);
                c.V[op[5].i] = r;
            });
        });
    });
}
OP(range1)
{
    operand(op[2], c, [&](var& hi) {
        var r;
        r = op[1].is("range") ? libube::range(hi) : libube::irange(hi);
        c.V[op[3].i] = r;
    });
}
OP(ind)
{
    libube::ind n = op[1].i;
    c.r("\"q\",[");
    for (size_t k = 0; k < op[2].size(); k++) {
        const std::string& f = op[2][k].s;
        libube::ind e;
        if (f == "~") e = ~n;
        else if (f == "=~") e = n = ~n;
        else if (f == "++") e = ++n;
        else if (f == "--") e = --n;
        else if (f == "p++") e = n++;
        else if (f == "p--") e = n--;
        else if (f == "+3") e = n + 3;
        else abort();
        c.r("%s[%ld,%d,%ld,%d]", k ? "," : "", (long)e, e ? 1 : 0, (long)n, n ? 1 : 0);
    }
    c.r("]");
}
OP(ctorn)
{
    var x = lit(op[2]);
    c.V[op[3].i] = var((int)op[1].i, x);
}
OP(ctorl)
{
    std::vector<var> x;
    for (auto& l : op[1].a) x.push_back(lit(l));
    var r;
    switch (x.size()) {
    case 0: r = var(Vars{}); break;
    case 1: r = var(Vars{x[0]}); break;
    case 2: r = var(Vars{x[0], x[1]}); break;
    case 3: r = var(Vars{x[0], x[1], x[2]}); break;
    case 4: r = var(Vars{x[0], x[1], x[2], x[3]}); break;
    case 5: r = var(Vars{x[0], x[1], x[2], x[3], x[4]}); break;
    default: abort();
    }
    c.V[op[2].i] = r;
}
OP(ctors)
{
    std::vector<std::string> s;
    for (auto& l : op[1].a) s.push_back(l[1].bytes());
    std::vector<const char*> p;
    for (auto& x : s) p.push_back(x.c_str());
    p.push_back(0);
    c.V[op[3].i] = op[2].i ? var((int)s.size(), &p[0]) : var((const char* const*)&p[0]);
}
OP(ctori)
{
    std::vector<int> x;
    for (auto& e : op[1].a) x.push_back(e.i);
    x.push_back(77);
    c.V[op[2].i] = var((int)x.size() - 1, (const int*)&x[0]);
}
OP(ctorc) { std::string s = op[1].bytes(); c.V[op[2].i] = var((int)s.size(), (const char*)s.data()); }
static var filled(const J& op, bool full)
{
    const J& d = op[1];
    var x = lit(op[2]);
    bool list = op[4].i;
    if (full) {
        switch (d.size()) {
        case 1: return var(std::initializer_list<int>{(int)d[0].i}, x);
        case 2: return var({(int)d[0].i, (int)d[1].i}, x);
        case 3: return var({(int)d[0].i, (int)d[1].i, (int)d[2].i}, x);
        }
    }
    if (list) {
        switch (d.size()) {
        case 1: return libube::view(std::initializer_list<int>{(int)d[0].i}, x);
        case 2: return libube::view({(int)d[0].i, (int)d[1].i}, x);
        case 3: return libube::view({(int)d[0].i, (int)d[1].i, (int)d[2].i}, x);
        }
    }
    var shape;
    for (size_t i = 0; i < d.size(); i++) shape[i] = (int)d[i].i;
    return libube::view(shape, x);
}
OP(ctorw) { c.V[op[3].i] = filled(op, true); }
OP(mkview) { c.V[op[3].i] = filled(op, false); }
