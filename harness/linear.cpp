// Operations of Linear.tla
#include <iostream>
#include <sstream>
#include "drv.h"
using namespace libube;

// the product reports the shapes it cannot multiply
struct Quiet {
    std::streambuf* b;
    std::ostringstream o;
    Quiet() { b = std::cout.rdbuf(o.rdbuf()); }
    ~Quiet() { std::cout.rdbuf(b); }
};
static var reduce(const std::string& f, const var& x)
{
    if (f == "sum") return libube::sum(x);
    if (f == "asum") return libube::asum(x);
    if (f == "iamax") return libube::iamax(x);
    if (f == "transpose") return libube::transpose(x);
    if (f == "cat") return libube::concatenate(x);
    abort();
}
OP(red)
{
    operand(op[2], c, [&](var& x) {
        var r;
        r = reduce(op[1].s, x);
        c.V[op[3].i] = r;
    });
}
OP(redi)
{
    const std::string& f = op[1].s;
    const var& x = c.V[op[2].i];
    var& z = c.V[op[3].i];
    if (f == "sum") libube::sum(x, z);
    else if (f == "asum") libube::asum(x, z);
    else if (f == "iamax") libube::iamax(x, z);
    else if (f == "transpose") libube::transpose(x, z);
    else if (f == "cat") libube::concatenate(x, z);
    else abort();
}
OP(dot)
{
    Quiet q;
    operand(op[2], c, [&](var& y) {
        var r;
        r = libube::dot(c.V[op[1].i], y);
        c.V[op[3].i] = r;
    });
}
OP(doti) { Quiet q; libube::dot(c.V[op[1].i], c.V[op[2].i], c.V[op[3].i]); }
OP(flip) { libube::transpose(c.V[op[1].i], c.V[op[1].i]); }
OP(swap) { libube::swap(c.V[op[1].i], c.V[op[2].i]); }
