// Operations of Conv.tla
#include <cmath>
#include <sstream>
#include "drv.h"
using namespace libube;

static var castTo(char t, const var& x)
{
    switch (t) {
    case 'c': return x.cast<char>();
    case 'i': return x.cast<int>();
    case 'l': return x.cast<long>();
    case 'f': return x.cast<float>();
    case 'd': return x.cast<double>();
    case 'y': return x.cast<cfloat>();
    case 'z': return x.cast<cdouble>();
    }
    abort();
}
OP(cast)
{
    operand(op[2], c, [&](var& x) {
        var r;
        r = castTo(op[1].s[0], x);
        c.V[op[3].i] = r;
    });
}
static UnaryFunctor& castFun(char t)
{
    switch (t) {
    case 'c': return castChar;
    case 'i': return castInt;
    case 'l': return castLong;
    case 'f': return castFloat;
    case 'd': return castDouble;
    case 'y': return castCFloat;
    case 'z': return castCDouble;
    }
    abort();
}
OP(castf)
{
    operand(op[2], c, [&](var& x) {
        var r;
        r = castFun(op[1].s[0])(x);
        c.V[op[3].i] = r;
    });
}
OP(casti) { castFun(op[1].s[0])(c.V[op[2].i], c.V[op[3].i]); }

static UnaryFunctor& fun(const std::string& f)
{
    if (f == "floor") return libube::floor;
    if (f == "real") return libube::real;
    if (f == "imag") return libube::imag;
    if (f == "norm") return libube::norm;
    if (f == "abs") return libube::abs;
    if (f == "arg") return libube::arg;
    if (f == "sin") return libube::sin;
    if (f == "cos") return libube::cos;
    if (f == "tan") return libube::tan;
    if (f == "atan") return libube::atan;
    if (f == "exp") return libube::exp;
    if (f == "log") return libube::log;
    if (f == "sqrt") return libube::sqrt;
    abort();
}
OP(fun)
{
    operand(op[2], c, [&](var& x) {
        var r;
        r = fun(op[1].s)(x);
        c.V[op[3].i] = r;
    });
}
OP(funi) { fun(op[1].s)(c.V[op[2].i], c.V[op[3].i]); }
OP(big)
{
    std::string t = op[1].bytes();
    var x(t.size(), t.data());
    for (auto& k : op[2].a) {
        if (k.s == "J") {
            std::ostringstream o;
            o << x;
            std::istringstream i(o.str());
            var y;
            i >> y;
            x = y;
        } else {
            var y = castTo(k.s[0], x);
            x = nil;
            x = y;
        }
    }
    std::string r;
    char last = op[2].a.back().s[0];
    if (last == 'J' || last == 'i' || last == 'l') {
        std::ostringstream o;
        o << x;
        r = o.str();
    } else {
        char b[100];
        snprintf(b, sizeof b, "%.0f", x.cast<double>() + 0.0);
        r = b;
    }
    c.r("\"q\",[");
    for (size_t i = 0; i < r.size(); i++) c.r("%s%d", i ? "," : "", (int)r[i]);
    c.r("]");
}

// the elements of a result in thousandths
static void mils(Ctx& c, var x)
{
    std::string r;
    for (int i = 0; i < x.size(); i++) {
        cdouble z;
        switch (x.atype()) {
        case TYPE_FLOAT: z = *x.ptr<float>(i); break;
        case TYPE_DOUBLE: z = *x.ptr<double>(i); break;
        case TYPE_CFLOAT: z = cdouble(*x.ptr<cfloat>(i)); break;
        case TYPE_CDOUBLE: z = *x.ptr<cdouble>(i); break;
        default: throw std::runtime_error("not a real or complex number");
        }
        r += (i ? ",[" : "[") + std::to_string(std::lrint(z.real() * 1000)) + "," + std::to_string(std::lrint(z.imag() * 1000)) + "]";
    }
    c.r("\"q\",[%s]", r.c_str());
}
OP(fnr) { operand(op[2], c, [&](var& x) { mils(c, fun(op[1].s)(x)); }); }
OP(powr) { operand(op[1], c, [&](var& x) { mils(c, libube::pow(x, lit(op[2]))); }); }
