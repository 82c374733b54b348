// Operations of Functors.tla: functors as a program would define them
#include "drv.h"
using namespace libube;
namespace {
struct FuRev : UnaryFunctor {
    FuRev() { mDim = 1; }
protected:
    void vector(var iv, var& ov) const override
    {
        int n = iv.size();
        for (int i = 0; i < n; i++) ov[i] = iv.at(n - 1 - i);
    }
};
struct FuScan : UnaryFunctor {
    FuScan() { mDim = 1; }
protected:
    void vector(var iv, var& ov) const override
    {
        var sum;
        for (int i = 0; i < iv.size(); i++) {
            if (i == 0) sum = iv.at(0);
            else sum = sum + iv.at(i);
            ov[i] = sum;
        }
    }
};
struct FuLast : UnaryFunctor {
    FuLast() { mDim = 1; }
protected:
    var alloc(var x) const override
    {
        if (x.dim() == 1) return view({1}, x.at(0));
        var s = x.shape();
        s[s.size() - 1] = 1;
        return view(s, x.at(0));
    }
    void vector(var iv, var& ov) const override { ov[0] = iv.at(iv.size() - 1); }
};
struct FuRows : UnaryFunctor {
    FuRows() { mDim = 2; }
protected:
    void vector(var iv, var& ov) const override
    {
        int n = iv.shape(0), m = iv.shape(1);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < m; j++) ov(i, j) = iv(n - 1 - i, j);
    }
};
struct FuTurn : UnaryFunctor {
    FuTurn() { mDim = 2; }
protected:
    var alloc(var x) const override
    {
        var s = x.shape();
        int n = s.size();
        if (n < 2) throw error("not a matrix");
        int r = x.shape(n - 2), c = x.shape(n - 1);
        s[n - 2] = c;
        s[n - 1] = r;
        return view(s, x.at(0));
    }
    void vector(var iv, var& ov) const override
    {
        int n = iv.shape(0), m = iv.shape(1);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < m; j++) ov(j, i) = iv(i, j);
    }
};
struct FuTwice : UnaryFunctor {
    FuTwice() { mDim = 1; }
protected:
    void vector(var x, ind ix, var& y, ind iy) const override
    {
        if (x.atype() != TYPE_DOUBLE || y.atype() != TYPE_DOUBLE) throw error("not double");
        int n = x.shape(x.dim() - 1);
        double* a = x.ptr<double>(ix);
        double* b = y.ptr<double>(iy);
        for (int i = 0; i < n; i++) b[i] = 2 * a[i];
    }
};
struct FuNone1 : UnaryFunctor { FuNone1() { mDim = 1; } };

struct FuMix : BinaryFunctor {
    FuMix() { mDim = 1; }
protected:
    void vector(var a, var b, var& o) const override
    {
        int n = a.size(), m = b.size();
        for (int i = 0; i < n; i++) o[i] = a.at(i) + b.at(m - 1 - i % m);
    }
};
struct FuPlus : BinaryFunctor {
protected:
    void vector(var a, var b, var& o) const override { o = a + b; }
};
struct FuNone2 : BinaryFunctor { FuNone2() { mDim = 1; } };

struct FuRsub : ArithmeticFunctor {
protected:
    void scalar(const var& a, const var& b, var& o) const override
    {
        if (!a.defined()) throw error("nothing");
        if (a.type() == TYPE_ARRAY) broadcast(a, b, o);
        else o = (a * -1) + b;
    }
    void vector(var a, ind ia, var b, ind ib, var& o, ind io) const override
    {
        if (a.atype() != TYPE_DOUBLE) throw error("not double");
        double* x = a.ptr<double>(ia);
        double* y = b.ptr<double>(ib);
        double* z = o.ptr<double>(io);
        for (int i = 0; i < b.size(); i++) z[i] = y[i] - x[i];
    }
};

struct FuTotal : NaryFunctor {
    FuTotal(int d) { mDim = d; }
protected:
    void vector(var v, var& o) const override
    {
        if (mDim == 0) {
            var t;
            t = v.at(0);
            for (int j = 1; j < v.size(); j++) t = t + v.at(j);
            o = t;
            return;
        }
        for (int i = 0; i < o.size(); i++) {
            var t;
            for (int j = 0; j < v.size(); j++) {
                var a;
                a = v.at(j);
                var e;
                e = a.at(a.size() == 1 ? 0 : i);
                if (j == 0) t = e;
                else t = t + e;
            }
            o[i] = t;
        }
    }
};
struct FuNoneN : NaryFunctor { FuNoneN() { mDim = 1; } };
struct FuCount : NaryFunctor {
    int n;
    FuCount(int k) : n(k) { mDim = 1; }
protected:
    var alloc(var) const override { return view({n}, 0.0); }
    void vector(var, var& o) const override
    {
        for (int i = 0; i < n; i++) o[i] = (double)i;
    }
};
const UnaryFunctor& unary(const std::string& f)
{
    static FuRev rev; static FuScan scan; static FuLast last; static FuRows rows; static FuTurn turn; static FuTwice twice; static FuNone1 none;
    if (f == "rev") return rev;
    if (f == "scan") return scan;
    if (f == "last") return last;
    if (f == "rows") return rows;
    if (f == "turn") return turn;
    if (f == "twice") return twice;
    if (f == "none") return none;
    abort();
}
const BinaryFunctor& binary(const std::string& f)
{
    static FuMix mix; static FuPlus plus; static FuNone2 none;
    if (f == "mix") return mix;
    if (f == "plus") return plus;
    if (f == "none") return none;
    abort();
}
const NaryFunctor& nary(const std::string& f)
{
    static FuTotal t0(0), t1(1), t2(2); static FuNoneN none;
    if (f == "total0") return t0;
    if (f == "total1") return t1;
    if (f == "total2") return t2;
    if (f == "nonen") return none;
    abort();
}
FuRsub rsub;
}
OP(fu1)
{
    operand(op[2], c, [&](var& x) {
        var r;
        r = unary(op[1].s)(x);
        c.V[op[3].i] = r;
    });
}
OP(fu1i) { unary(op[1].s)(c.V[op[2].i], c.V[op[3].i]); }
OP(fu2)
{
    operand(op[3], c, [&](var& y) {
        var r;
        r = binary(op[1].s)(c.V[op[2].i], y);
        c.V[op[4].i] = r;
    });
}
OP(fu2i) { binary(op[1].s)(c.V[op[2].i], c.V[op[3].i], c.V[op[4].i]); }
OP(fua)
{
    operand(op[2], c, [&](var& y) {
        var r;
        r = rsub(c.V[op[1].i], y);
        c.V[op[3].i] = r;
    });
}
OP(fux)
{
    operand(op[2], c, [&](var& x) {
        var r;
        r = nary(op[1].s)(x);
        c.V[op[3].i] = r;
    });
}
OP(fuxi) { nary(op[1].s)(c.V[op[2].i], c.V[op[3].i]); }
OP(fu0)
{
    var r;
    if (op[1].is("none")) r = nary("total1")();
    else r = FuCount(op[2].i)();
    c.V[op[3].i] = r;
}
