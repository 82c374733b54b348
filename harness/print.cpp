// Operations of Print.tla
#include "drv.h"
#include "lube/module.h"
#include <fstream>
#include <iostream>
#include <sstream>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace libube;

static void bytes(const std::string& s, Ctx& c)
{
    c.res += "[";
    for (size_t i = 0; i < s.size(); i++) c.r(i ? ",%d" : "%d", (int)s[i]);
    c.res += "]";
}
static std::string held(var v) { return std::string(v.ptr<char>(), v.size()); }

OP(pr)
{
    operand(op[1], c, [&](var& x) {
        std::ostringstream o;
        o << x;
        varstream p;
        p << x;
        var v = var(p);
        c.r("\"q\",");
        bytes(v.size() == (int)o.str().size() && (!v.size() || held(v) == o.str()) ? o.str() : "differ", c);
    });
}
OP(ty)
{
    operand(op[1], c, [&](var& x) {
        var t = x.typeStr(), a = x.atypeStr();
        c.r("\"q\",");
        bytes(held(t), c);
        c.r(",");
        bytes(held(a), c);
    });
}
static std::string told(const char* w)
{
    std::string s = w;
    return s.substr(0, s.rfind("\nCall stack (size "));
}
OP(er)
{
    operand(op[1], c, [&](var& x) {
        std::string a, b;
        size_t n = 0, was = 0;
        for (int i = 0; i < 3; i++) {
            if (i) was = __sanitizer_get_current_allocated_bytes();
            {
                std::string p, q;
                try { throw error(x); }
                catch (error e) {
                    error* f = new error(e);
                    error g(*f);
                    delete f;
                    p = told(g.what());
                }
                try {
                    try { throw error(x); }
                    catch (std::exception& e) { throw; }
                }
                catch (std::exception& e) { q = told(e.what()); }
                if (!i) { a = p; b = q; }
            }
            if (i) n += __sanitizer_get_current_allocated_bytes() - was;
        }
        c.r("\"q\",");
        bytes(a == b ? a : "differ", c);
        c.r(",%ld", (long)n);
    });
}
OP(tm)
{
    operand(op[1], c, [&](var& x) {
        std::ostringstream o;
        std::streambuf* b = std::cout.rdbuf(o.rdbuf());
        { timer t(x); }
        std::cout.rdbuf(b);
        std::string s = o.str();
        size_t p = s.rfind(": ");
        double ms = -1;
        int n = 0;
        if (p == s.npos || sscanf(s.c_str() + p, ": %lf ms\n%n", &ms, &n) != 1 || ms < 0 || (size_t)n != s.size() - p) s = "no time";
        else s = s.substr(0, p);
        c.r("\"q\",");
        bytes(s, c);
    });
}
OP(iniw)
{
    operand(op[1], c, [&](var& x) {
        std::string n = std::string(scratch()) + "/settings";
        { filemodule m("ini"); m.create().write(n.c_str(), x); }
        std::ifstream i(n, std::ios::binary);
        std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
        c.r("\"q\",");
        bytes(s, c);
    });
}
