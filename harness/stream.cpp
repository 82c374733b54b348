// Operations of Stream.tla
#include "drv.h"
using namespace libube;

static varstream* gV[4];
static int gN = 0;
static void forget() { for (auto& p : gV) { delete p; p = 0; } gN = 0; }
namespace { struct ForgetAtStart { ForgetAtStart() { atStart().push_back(forget); } } gForget; }
static var held(int k) { return gV[k] ? (var)*gV[k] : var(); }

OP(sinit) { gN = op[1].i; c.extras = gN; c.extra = held; }
OP(sopen) { int k = op[1].i - 1; varstream* n = new varstream(c.V[op[2].i]); delete gV[k]; gV[k] = n; }
OP(sclose) { int k = op[1].i - 1; delete gV[k]; gV[k] = 0; }

static varstream& at(const J& op) { varstream& s = *gV[op[1].i - 1]; s.clear(); return s; }
static void flags(varstream& s, Ctx& c) { c.r(",%d,%d", (int)s.eof(), (int)s.fail()); }
static void bytes(const std::string& s, Ctx& c)
{
    c.r("\"q\",[");
    for (size_t i = 0; i < s.size(); i++) c.r(i ? ",%d" : "%d", (int)s[i]);
    c.r("]");
}
OP(sget) { varstream& s = at(op); int g = s.get(); c.r("\"q\",%d", g); flags(s, c); }
OP(speek) { varstream& s = at(op); int g = s.peek(); c.r("\"q\",%d", g); flags(s, c); }
OP(sread) { varstream& s = at(op); std::string b(op[2].i + 1, 0); s.read(&b[0], op[2].i); bytes(b.substr(0, s.gcount()), c); flags(s, c); }
OP(sskip) { varstream& s = at(op); s.ignore(op[2].i); c.r("\"q\",%d", (int)s.gcount()); flags(s, c); }
OP(sline) { varstream& s = at(op); std::string l; std::getline(s, l); bytes(l, c); flags(s, c); }
OP(sword) { varstream& s = at(op); std::string l; s >> l; bytes(l, c); flags(s, c); }
OP(srest)
{
    varstream& s = at(op);
    std::string l;
    int ch;
    while ((ch = s.rdbuf()->sbumpc()) != EOF) l += (char)ch;
    if (s.peek() != EOF) l += "not the end";
    bytes(l, c);
    flags(s, c);
}
OP(sunget) { varstream& s = at(op); s.unget(); bytes("", c); flags(s, c); }
OP(sputb)
{
    // put back the byte that was read
    varstream& s = at(op);
    s.unget();
    int ch = s.get();
    s.putback((char)ch);
    c.r("\"q\",%d", (int)(char)ch);
    flags(s, c);
}
OP(sseek) { varstream& s = at(op); s.seekg(op[2].i); bytes("", c); flags(s, c); }
OP(sput) { varstream& s = at(op); std::string b = op[2].bytes(); for (char ch : b) s.put(ch); bytes("", c); flags(s, c); }
OP(swrite) { varstream& s = at(op); std::string b = op[2].bytes(); s.write(b.data(), b.size()); s.flush(); bytes("", c); flags(s, c); }
OP(sfmt) { varstream& s = at(op); s << (int)op[2].i; bytes("", c); flags(s, c); }
OP(svar) { c.V[op[2].i] = (var)*gV[op[1].i - 1]; }
