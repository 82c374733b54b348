// Operations of JsonText.tla
#include "drv.h"
#include <sstream>
using namespace libube;

static std::stringstream* gS = 0;
static std::stringstream& stream(Ctx& c)
{
    if (!gS) gS = new std::stringstream;
    return *gS;
}
static void bytes(const std::string& s, Ctx& c)
{
    c.res += "[";
    for (size_t i = 0; i < s.size(); i++) c.r(i ? ",%d" : "%d", (int)s[i]);
    c.res += "]";
}
static void fresh() { delete gS; gS = 0; }
struct FreshAtStart { FreshAtStart() { atStart().push_back(fresh); } } gFresh;

OP(jtext)
{
    std::stringstream& s = stream(c);
    s.clear();
    std::string t = op[1].bytes();
    s.write(t.data(), t.size());
}
OP(jwrite)
{
    std::stringstream& s = stream(c);
    s.clear();
    s << c.V[op[1].i];
    std::string t = op[2].bytes();
    s.write(t.data(), t.size());
}
OP(jread)
{
    std::stringstream& s = stream(c);
    try { s >> c.V[op[1].i]; }
    catch (...) { fresh(); throw; }
}
OP(jrest)
{
    std::stringstream& s = stream(c);
    std::string r((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>());
    fresh();
    c.r("\"q\",");
    bytes(r, c);
}
static std::string text(const var& v) { std::ostringstream o; o << v; return o.str(); }
// what was written, without the white space outside strings
static std::string compact(const std::string& t)
{
    std::string r;
    bool in = false;
    for (size_t i = 0; i < t.size(); i++) {
        if (in) {
            r += t[i];
            if (t[i] == '\\' && i + 1 < t.size()) r += t[++i];
            else if (t[i] == '"') in = false;
        }
        else if (!isspace((unsigned char)t[i])) { r += t[i]; in = t[i] == '"'; }
    }
    return r;
}
OP(jround)
{
    std::string w = compact(text(c.V[op[1].i]));
    std::istringstream i(text(c.V[op[1].i]));
    var z;
    i >> z;
    std::string rest((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    std::string t = text(z);
    std::istringstream j(t);
    var y;
    j >> y;
    c.r("\"q\",%d,%d", (int)(text(y) == t), (int)rest.size());
    c.res += ",";
    bytes(w, c);
    c.V[op[2].i] = z;
}
OP(jcanon)
{
    std::istringstream i(op[1].bytes());
    var z;
    i >> z;
    std::ostringstream o;
    o << z;
    c.r("\"q\",");
    bytes(o.str(), c);
}
