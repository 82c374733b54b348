// Operations of Arith.tla
#include "drv.h"
using namespace libube;

OP(bin)
{
    operand(op[3], c, [&](var& y) {
        const var& x = c.V[op[2].i];
        const std::string& f = op[1].s;
        var r;
        if (f == "add") r = x + y;
        else if (f == "sub") r = x - y;
        else if (f == "mul") r = x * y;
        else if (f == "div") r = x / y;
        else if (f == "pow") r = libube::pow(x, y);
        else if (f == "set") r = libube::set(x, y);
        else abort();
        c.V[op[4].i] = r;
    });
}
OP(cpd)
{
    operand(op[4], c, [&](var& y) {
        walk(c.V[op[2].i], op[3], 0, [&](var& l) {
            const std::string& f = op[1].s;
            if (f == "add") l += y;
            else if (f == "sub") l -= y;
            else if (f == "mul") l *= y;
            else if (f == "div") l /= y;
            else abort();
        });
    });
}
OP(tri)
{
    const std::string& f = op[1].s;
    const var& x = c.V[op[2].i];
    const var& y = c.V[op[3].i];
    var& z = c.V[op[4].i];
    if (f == "add") libube::add(x, y, z);
    else if (f == "sub") libube::sub(x, y, z);
    else if (f == "mul") libube::mul(x, y, z);
    else if (f == "div") libube::div(x, y, z);
    else if (f == "pow") libube::pow(x, y, z);
    else if (f == "set") libube::set(x, y, z);
    else abort();
}
OP(neg) { var r; r = -c.V[op[1].i]; c.V[op[2].i] = r; }
