// Operations of StrFun.tla
#include "drv.h"
#include "lube/regex.h"
using namespace libube;

static var& at(const J& op, Ctx& c) { return c.V[op[1].i]; }
static void put(Ctx& c, const J& z, var v) { c.V[z.i] = v; }
static StringFunctor& fun(const J& f)
{
    if (f.is("upper")) return libube::toupper;
    if (f.is("lower")) return libube::tolower;
    return libube::strip;
}

OP(tsplit) { put(c, op[4], at(op, c).split(op[2].bytes().c_str(), op[3].i)); }
OP(twords) { put(c, op[3], at(op, c).split((int)op[2].i)); }
OP(tjoin) { put(c, op[3], at(op, c).join(op[2].bytes().c_str())); }
OP(tfun) { put(c, op[3], fun(op[2])(at(op, c))); }
OP(tinto) { fun(op[2])(at(op, c), c.V[op[3].i]); }
OP(tin)
{
    if (op[2].is("upper")) at(op, c).toupper();
    else if (op[2].is("lower")) at(op, c).tolower();
    else at(op, c).strip();
}
OP(tlen) { long n = at(op, c).len(); c.r("\"q\",%ld", n < 0 ? -1 : n); }
OP(tre)
{
    std::string re(op[2].bytes());
    put(c, op[4], op[3].is("search") ? at(op, c).search(re.c_str()) : at(op, c).match(re.c_str()));
}
OP(trepl) { at(op, c).replace(op[2].bytes().c_str(), op[3].bytes().c_str()); }
