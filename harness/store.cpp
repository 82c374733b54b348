// Operations of Store.tla
#include "drv.h"
using namespace libube;

static var build(const J& e, char t)
{
    switch (t) {
    case 'c': return var((char)e.i);
    case 'i': return var((int)e.i);
    case 'l': return var(wide(e.i));
    case 'f': return var((float)(e.i / 4.0));
    case 'd': return var(wideReal(e.i));
    case 'y': return var(cfloat(e[0].i / 4.0f, e[1].i / 4.0f));
    case 'z': return var(cdouble(wideReal(e[0].i), wideReal(e[1].i)));
    }
    abort();
}

static var shapeVar(const J& d)
{
    var s;
    s = var(0);
    s.array();
    s.resize(0);
    for (size_t i = 0; i < d.size(); i++) s.push(var((int)d[i].i));
    return s;
}

var lit(const J& j)
{
    char t = j[0].s[0];
    switch (t) {
    case 'n': return var();
    case 's': { std::string s = j[1].bytes(); return var((int)s.size(), s.data()); }
    case 'a': {
        char e = j[1].s[0];
        const J& x = j[2];
        var r;
        if (x.size() == 0) {
            J zero;
            zero.t = 2; zero.a.resize(2);
            J z; if (e == 'y' || e == 'z') z = zero;
            r = build(z, e);
            r.array();
            r.resize(0);
            return r;
        }
        r = build(x[0], e);
        r.array();
        for (size_t i = 1; i < x.size(); i++) r.push(build(x[i], e));
        return r;
    }
    case 'v': {
        var r;
        r.resize(j[1].size());
        for (size_t i = 0; i < j[1].size(); i++) r[(int)i] = lit(j[1][i]);
        return r;
    }
    case 'm': {
        var r;
        r[nil];
        for (size_t i = 0; i < j[1].size(); i++) r[lit(j[1][i][0])] = lit(j[1][i][1]);
        return r;
    }
    case 'w': {
        var b = lit(j[1]);
        return b.view(shapeVar(j[2]), j[3].i);
    }
    default:
        return build(j[1], t);
    }
}

void walk(var& b, const J& path, size_t i, const std::function<void(var&)>& f)
{
    if (i == path.size()) { f(b); return; }
    if (path[i][0].is("i")) {
        var r = b[(int)path[i][1].i];
        walk(r, path, i + 1, f);
    } else {
        var r = b[lit(path[i][1])];
        walk(r, path, i + 1, f);
    }
}

static void walkAt(const var& b, const J& path, size_t i, const std::function<void(var&)>& f)
{
    if (i == path.size()) { var r = b; f(r); return; }
    if (path[i][0].is("i")) {
        var r = b.at((int)path[i][1].i);
        walkAt(r, path, i + 1, f);
    } else {
        var r = b.at(lit(path[i][1]));
        walkAt(r, path, i + 1, f);
    }
}

void operand(const J& s, Ctx& c, const std::function<void(var&)>& f)
{
    if (s[0].is("L")) { var r = lit(s[1]); f(r); }
    else if (s[0].is("P")) walk(c.V[s[1].i], s[2], 0, [&](var& v) { var r = v; f(r); });
    else if (s[0].is("A")) walkAt(c.V[s[1].i], s[2], 0, f);
    else if (s[0].is("C")) walk(c.V[s[1].i], s[2], 0, [&](var& v) { var r = v.copy(); f(r); });
    else abort();
}

OP(set) { operand(op[3], c, [&](var& y) { walk(c.V[op[1].i], op[2], 0, [&](var& l) { l = y; }); }); }
OP(push) { operand(op[3], c, [&](var& y) { walk(c.V[op[1].i], op[2], 0, [&](var& l) { l.push(y); }); }); }
OP(ins) { operand(op[3], c, [&](var& y) { walk(c.V[op[1].i], op[2], 0, [&](var& l) { l.insert(y, op[4].i); }); }); }
OP(app) { operand(op[3], c, [&](var& y) { walk(c.V[op[1].i], op[2], 0, [&](var& l) { l.append(y); }); }); }
OP(com) { operand(op[3], c, [&](var& y) { walk(c.V[op[1].i], op[2], 0, [&](var& l) { (l, y); }); }); }
OP(uns) { operand(op[3], c, [&](var& y) { walk(c.V[op[1].i], op[2], 0, [&](var& l) { l.unshift(y); }); }); }

static void into(Ctx& c, const J& z, const std::function<var()>& f)
{
    if (z.i) c.V[z.i] = f(); else f();
}
OP(pop) { walk(c.V[op[1].i], op[2], 0, [&](var& l) { into(c, op[3], [&] { return l.pop(); }); }); }
OP(shift) { walk(c.V[op[1].i], op[2], 0, [&](var& l) { into(c, op[3], [&] { return l.shift(); }); }); }
OP(rem) { walk(c.V[op[1].i], op[2], 0, [&](var& l) { into(c, op[3], [&] { return l.remove(op[4].i); }); }); }
OP(resize) { walk(c.V[op[1].i], op[2], 0, [&](var& l) { l.resize(op[3].i); }); }
OP(presize) { walk(c.V[op[1].i], op[2], 0, [&](var& l) { l.presize(op[3].i); }); }
OP(clear) { walk(c.V[op[1].i], op[2], 0, [&](var& l) { l.clear(); }); }
OP(array) { walk(c.V[op[1].i], op[2], 0, [&](var& l) { l.array(); }); }
OP(apps) {
    std::string s = op[3].bytes();
    walk(c.V[op[1].i], op[2], 0, [&](var& l) { l.append(s.c_str()); });
}
OP(view) {
    const J& d = op[4];
    int off = op[5].i;
    walk(c.V[op[1].i], op[2], 0, [&](var& l) {
        into(c, op[3], [&]() -> var {
            // the initialiser list form where there is one, else the array form
            switch (d.size()) {
            case 1: return l.view({(int)d[0].i}, off);
            case 2: return l.view({(int)d[0].i, (int)d[1].i}, off);
            default: return l.view(shapeVar(d), off);
            }
        });
    });
}
OP(subv) { c.V[op[2].i] = c.V[op[1].i].subview(op[3].i, op[4].i); }
OP(offs) { c.V[op[1].i].offset(op[2].i); }
OP(adv) { c.V[op[1].i].advance(op[2].i); }
static void index(var& v, const J& x, const std::function<void(var&)>& f)
{
    int i = x[0].i;
    if (x.size() == 1) { var r = v(i); f(r); }
    else if (x.size() == 2) { var r = v(i, (int)x[1].i); f(r); }
    else if (x.size() == 3) { var r = v(i, (int)x[1].i, (int)x[2].i); f(r); }
    else abort();
}
OP(vset) { operand(op[3], c, [&](var& y) { index(c.V[op[1].i], op[2], [&](var& l) { l = y; }); }); }
OP(vget) { index(c.V[op[1].i], op[2], [&](var& l) { c.V[op[3].i] = l; }); }
static void callee(var a, const J& path, var& y) { walk(a, path, 0, [&](var& l) { l = y; }); }
OP(scope) {
    // the parameter is another holder while the operand is evaluated
    var a = c.V[op[1].i];
    operand(op[3], c, [&](var& y) { walk(a, op[2], 0, [&](var& l) { l = y; }); });
}
OP(hold) {
    walk(c.V[op[1].i], op[2], 0, [&](var& l) {
        c.V[op[1].i] = nil;
        c.V[op[3].i] = l;
    });
}
OP(size) {
    walkAt(c.V[op[1].i], op[2], 0, [&](var& l) {
        const var& k = l;
        c.r("\"q\",%d,%d,%d,%d", k.size(), (int)k.type(), (int)k.defined(), k.defined() ? (int)k.atype() : 0);
    });
}
OP(index) {
    operand(op[3], c, [&](var& y) {
        walkAt(c.V[op[1].i], op[2], 0, [&](var& l) { ind i = l.index(y); c.r("\"q\",%d", i ? (int)i : -1); });
    });
}
OP(key) { c.V[op[3].i] = c.V[op[1].i].key(op[2].i); }
OP(shape) {
    const var& v = c.V[op[1].i];
    c.r("\"q\",%d,%d,[", v.dim(), v.offset());
    var s = v.shape();
    if (s.size() != v.dim()) c.r("\"dim\",");
    for (int i = 0; i < v.dim(); i++) {
        // the whole shape and the single dimension agree, also counted from the end
        if (v.shape(i) != s.at(i).get<int>() || v.shape(i) != v.shape(i - v.dim())) c.r("\"shape\",");
        c.r(i ? ",%d" : "%d", v.shape(i));
    }
    c.r("],[");
    for (int i = 0; i < v.dim(); i++) c.r(i ? ",%d" : "%d", v.stride(i));
    c.r("],%d", (int)v.view());
}

static void num(double x, Ctx& c)
{
    double q = x * 4;
    if (std::fabs(x) > 2e9 && std::fabs(x) < 1e19) {
        long k = (long)x;
        if (narrow(k) != k) { c.r("%ld", 4 * narrow(k) + (long)((x - k) * 4)); return; }
    }
    if (std::isfinite(q) && q == std::floor(q) && std::fabs(q) < 1e15) c.r("%ld", (long)q);
    else c.r("\"%.17g\"", x);
}
static void scalar(ind t, const var& v, Ctx& c)
{
    c.r("[\"%c\",", "?cilfdyzvp"[(int)t]);
    switch (t) {
    case TYPE_CHAR: c.r("%d", (int)v.get<char>()); break;
    case TYPE_INT: c.r("%d", v.get<int>()); break;
    case TYPE_LONG: c.r("%ld", narrow(v.get<long>())); break;
    case TYPE_FLOAT: num(v.get<float>(), c); break;
    case TYPE_DOUBLE: num(v.get<double>(), c); break;
    case TYPE_CFLOAT: { cfloat z = v.get<cfloat>(); c.r("["); num(z.real(), c); c.r(","); num(z.imag(), c); c.r("]"); break; }
    case TYPE_CDOUBLE: { cdouble z = v.get<cdouble>(); c.r("["); num(z.real(), c); c.r(","); num(z.imag(), c); c.r("]"); break; }
    default: c.r("0");
    }
    c.r("]");
}
// Contents, regardless of which storage holds them
static void deep(const var& v, Ctx& c)
{
    if (!v.defined()) { c.r("[\"n\"]"); return; }
    ind t = v.type();
    if (t != TYPE_ARRAY) {
        if (t == TYPE_CDOUBLE) c.r("[\"A\",[");
        scalar(t, v, c);
        if (t == TYPE_CDOUBLE) c.r("]]");
        return;
    }
    t = v.atype();
    if (t == TYPE_PAIR) {
        c.r("[\"M\",[");
        for (int i = 0; i < v.size(); i++) {
            c.r(i ? ",[" : "[");
            deep(v.key(i), c);
            c.r(",");
            deep(v.at(i), c);
            c.r("]");
        }
    } else {
        c.r("[\"A\",[");
        for (int i = 0; i < v.size(); i++) {
            if (i) c.r(",");
            if (t == TYPE_VAR) deep(v.at(i), c);
            else scalar(t, v.at(i), c);
        }
    }
    c.r("]]");
}
static void compare(const var& a, const var& b, Ctx& c, bool order)
{
    bool eq = a == b;
    if ((a != b) == eq || (b == a) != eq) c.r("\"derived\",");
    c.r("\"q\",%d", eq);
    bool lt = a < b, gt = b < a;
    // the derived relations
    if ((a > b) != gt || (a <= b) == gt || (a >= b) == lt) c.r(",\"derived\"");
    if (order) c.r(",%d,%d", lt, gt);
}
// two complex numbers whose magnitudes are clearly different, or the same
static bool complexNumber(const var& v, double& re, double& im)
{
    if (!v.defined()) return false;
    if (v.type() == TYPE_CFLOAT) {
        cfloat z = v.get<cfloat>();
        re = z.real(); im = z.imag();
    } else if (v.atype() == TYPE_CDOUBLE && v.size() == 1) {
        cdouble z = v.get<cdouble>();
        re = z.real(); im = z.imag();
    } else return false;
    re = std::fabs(re); im = std::fabs(im);
    return re <= 100 && im <= 100;
}
static bool byMagnitude(const var& a, const var& b)
{
    double ar, ai, br, bi;
    if (!complexNumber(a, ar, ai) || !complexNumber(b, br, bi)) return false;
    if (a.atype() != b.atype()) return false;
    return (ar == br && ai == bi) || (ar == bi && ai == br) || ar * ar + ai * ai != br * br + bi * bi;
}
static bool ordered(const var& v)
{
    if (!v.defined()) return true;
    if (v.type() != TYPE_ARRAY) return v.type() != TYPE_CFLOAT && v.type() != TYPE_CDOUBLE;
    if (v.atype() == TYPE_CFLOAT || v.atype() == TYPE_CDOUBLE) return false;
    if (v.atype() == TYPE_VAR || v.atype() == TYPE_PAIR)
        for (int i = 0; i < v.size(); i++) if (!ordered(v.at(i))) return false;
    return true;
}
OP(cmpe) {
    walkAt(c.V[op[1].i], op[2], 0, [&](var& a) {
        walkAt(c.V[op[3].i], op[4], 0, [&](var& b) { compare(a, b, c, (ordered(a) && ordered(b)) || byMagnitude(a, b)); });
    });
}
OP(sort) {
    walkAt(c.V[op[1].i], op[2], 0, [&](var& l) {
        var r = l.sort();
        c.r("\"q\",");
        deep(r, c);
    });
}
OP(fsort) {
    var& v = c.V[op[1].i];
    libube::sort(v, v);
}
OP(cmp) {
    const var& a = c.V[op[1].i];
    const var& b = c.V[op[2].i];
    compare(a, b, c, (ordered(a) && ordered(b)) || byMagnitude(a, b));
}
