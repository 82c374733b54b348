// Operations of Transform.tla
#include "drv.h"
#include "lube/dft.h"
using namespace libube;

static var typeOf(const J& t)
{
    switch (t.s[0]) {
    case 'f': return var(0.0f);
    case 'd': return var(0.0);
    case 'y': return var(cfloat(0.0f, 0.0f));
    case 'z': return var(cdouble(0.0, 0.0));
    case 'c': return var('a');
    }
    return var(1);
}
// the values of v, in rows, as pairs
static void report(const var& v, Ctx& c)
{
    int n = v.shape(-1);
    c.res += "\"q\",[";
    for (int i = 0; i < v.size(); i++) {
        double re = 0, im = 0;
        var e;
        e = v.at(i);
        switch (v.atype()) {
        case TYPE_FLOAT: re = e.get<float>(); break;
        case TYPE_DOUBLE: re = e.get<double>(); break;
        case TYPE_CFLOAT: re = e.get<cfloat>().real(); im = e.get<cfloat>().imag(); break;
        case TYPE_CDOUBLE: re = e.get<cdouble>().real(); im = e.get<cdouble>().imag(); break;
        default: re = NAN;
        }
        if (i % n == 0) c.res += i ? "],[" : "[";
        else c.res += ",";
        if (std::isfinite(re) && std::isfinite(im)) c.r("[%.17g,%.17g]", re, im);
        else c.res += "[\"nan\",\"nan\"]";
    }
    c.res += v.size() ? "]]" : "]";
}
static var transform(const J& d, const J& t, int n, const var& x, var* z)
{
    // twice: a transform can be used again
    if (d.is("f")) {
        DFT f(n, typeOf(t));
        if (z) { f(x, *z); return f(x, *z); }
        f(x);
        return f(x);
    }
    IDFT f(n, typeOf(t));
    if (z) { f(x, *z); return f(x, *z); }
    f(x);
    return f(x);
}
OP(dft)
{
    operand(op[5 - 1], c, [&](var& x) {
        var r;
        r = transform(op[1], op[2], op[3].i, x, 0);
        report(r, c);
        c.V[op[5].i] = r;
    });
}
OP(dftb)
{
    operand(op[3], c, [&](var& x) {
        DFT f(op[2].i, typeOf(op[1]));
        IDFT b(op[2].i, typeOf(op[1]));
        var r;
        r = b(f(x));
        report(r, c);
        c.V[op[4].i] = r;
    });
}
OP(dfto)
{
    transform(op[1], op[2], op[3].i, c.V[op[4].i], &c.V[op[5].i]);
    report(c.V[op[5].i], c);
}
OP(poly)
{
    operand(op[1], c, [&](var& x) {
        var r;
        r = libube::poly(x);
        c.res += "\"q\",0";
        c.V[op[2].i] = r;
    });
}
OP(roots)
{
    operand(op[1], c, [&](var& x) {
        var r;
        r = libube::roots(x);
        report(r, c);
        c.V[op[2].i] = r;
    });
}
