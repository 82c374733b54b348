// Operations of Settings.tla
#include "drv.h"
#include "lube/config.h"
#include "lube/module.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <set>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
using namespace libube;

static Config* gCfg[3];
static Option* gOpt;
static std::vector<char**> gArgv;      // getopt wants them alive
static std::set<std::string> gSecs;    // sections that may hold something

static var text(const std::string& s) { return var((ind)s.size(), s.data()); }
static var section(const J& l)
{
    if (l[0].is("n")) return nil;
    std::string s = l[1].bytes();
    gSecs.insert(s);
    return text(s);
}
static void freeArgs()
{
    for (char** v : gArgv) {
        for (char** p = v; *p; p++) free(*p);
        free(v);
    }
    gArgv.clear();
}
static void forget()
{
    delete gOpt; gOpt = 0;
    freeArgs();
    for (auto& p : gCfg) { delete p; p = 0; }
    if (gSecs.empty()) return;
    {
        Config c;
        for (auto& s : gSecs) c.configSection(text(s)) = nil;
    }
    gSecs.clear();
}
namespace { struct ForgetAtStart { ForgetAtStart() { atStart().push_back(forget); } } gForget; }

static std::string name(const char* f) { return std::string(scratch()) + "/" + f; }
static void put(const std::string& f, const std::string& bytes) { std::ofstream o(f, std::ios::binary); o.write(bytes.data(), bytes.size()); }
static void note(const std::string& t)       // the sections of an ini text
{
    gSecs.insert("");
    for (size_t p = 0; (p = t.find('[', p)) != t.npos; p++) {
        size_t e = t.find(']', p);
        if (e != t.npos) gSecs.insert(t.substr(p + 1, e - p - 1));
    }
}
static void codes(Ctx& c, const char* s, size_t n)
{
    c.r("[");
    for (size_t k = 0; k < n; k++) c.r(k ? ",%d" : "%d", (int)s[k]);
    c.r("]");
}

OP(cnew) { int k = op[1].i; delete gCfg[k]; gCfg[k] = 0; gCfg[k] = new Config(section(op[2])); }
OP(csec) { c.V[op[3].i] = gCfg[op[1].i]->configSection(section(op[2])); }
OP(cfile)
{
    std::string t = op[2].bytes();
    note(t);
    put(name("cfg.ini"), t);
    gCfg[op[1].i]->configFile(name("cfg.ini").c_str());
}
OP(clost) { gCfg[op[1].i]->configFile(name("none.ini").c_str()); }
OP(iread)
{
    put(name("a.ini"), op[1].bytes());
    filemodule m("ini");
    file& f = m.create();
    var r = f.read(name("a.ini").c_str());
    c.V[op[2].i] = r;
}
OP(cset) { operand(op[3], c, [&](var& y) { gCfg[op[1].i]->configSet(lit(op[2]), y); }); }
OP(cget) { c.V[op[3].i] = gCfg[op[1].i]->config(lit(op[2])); }
OP(ctyped)
{
    Config& g = *gCfg[op[1].i];
    var k = lit(op[2]);
    const J& d = op[4];
    const char t = d[0].s[0];
    double q = 0;
    long n = 0;
    if (t == 'i') n = g.config(k, (int)d[1].i);
    else if (t == 'l') n = g.config(k, (long)d[1].i);
    else if (t == 'f') q = g.config(k, (float)(d[1].i / 4.0));
    else q = g.config(k, d[1].i / 4.0);
    if (t == 'f' || t == 'd') {
        long w = (long)q;
        if (std::fabs(q) > 2e9 && std::fabs(q) < 1e19 && narrow(w) != w) c.r("\"q\",[\"%c\",%ld]", t, 4 * narrow(w) + (long)((q - w) * 4));
        else if (q * 4 == std::floor(q * 4) && std::fabs(q) < 1e8) c.r("\"q\",[\"%c\",%ld]", t, (long)(q * 4));
        else c.r("\"q\",[\"%c\",\"%.17g\"]", t, q);
    }
    else c.r("\"q\",[\"%c\",%ld]", t, narrow(n));
}
OP(cstr)
{
    std::string d = op[3].bytes();
    const char* s = gCfg[op[1].i]->config(lit(op[2]), d.c_str());
    c.r("\"q\",");
    codes(c, s, strlen(s));
}

static char** args(const J& a, const J* prog, int& n)
{
    char** v = (char**)calloc(a.size() + 2, sizeof *v);
    n = 0;
    v[n++] = strdup(prog ? prog->bytes().c_str() : "p");
    for (size_t k = 0; k < a.size(); k++) v[n++] = strdup(a[k].bytes().c_str());
    gArgv.push_back(v);
    return v;
}
struct Said {                      // what goes to std::cout
    std::ostringstream o;
    std::streambuf* b;
    Said() : b(std::cout.rdbuf(o.rdbuf())) {}
    ~Said() { std::cout.rdbuf(b); }
};
OP(onew) { delete gOpt; gOpt = 0; gOpt = new Option(text(op[1].bytes())); }
OP(odecl) { operand(op[3], c, [&](var& y) { (*gOpt)((char)op[1].i, text(op[2].bytes()), y); }); }
OP(oline) { (*gOpt)(text(op[1].bytes())); }
OP(oparse)
{
    int n;
    char** v = args(op[2], &op[1], n);
    var r = gOpt->parse(n, v);
    c.V[op[3].i] = r;
    c.r("\"q\",%ld", (long)gOpt->index());
}
// The program ends: in a process of its own
static std::ostringstream* gSaid;
static int gPipe;
static void ended(int status, void*)
{
    std::string s = gSaid->str();
    char b = (char)status;
    if (write(gPipe, &b, 1) == 1 && write(gPipe, s.data(), s.size()) >= 0) _exit(0);
    _exit(1);
}
OP(obad)
{
    int p[2];
    if (pipe(p)) throw std::runtime_error("pipe");
    pid_t pid = fork();
    if (pid == 0) {
        int z = open("/dev/null", O_RDWR);
        dup2(z, 0); dup2(z, 1); dup2(z, 2);
        gPipe = p[1];
        Said* s = new Said;
        gSaid = &s->o;
        on_exit(ended, 0);
        int n;
        char** v = args(op[2], &op[1], n);
        try { gOpt->parse(n, v); } catch (...) {}
        _exit(9);
    }
    close(p[1]);
    std::string out;
    char b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, n);
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    if (out.empty()) { c.r("\"q\",\"went on\""); return; }
    c.r("\"q\",%d,", (int)out[0]);
    codes(c, out.data() + 1, out.size() - 1);
}
OP(oargs) { c.V[op[1].i] = gOpt->args(); }
OP(oget) { c.V[op[2].i] = (*gOpt)[(char)op[1].i]; }
OP(ousage)
{
    Said s;
    gOpt->usage();
    std::string t = s.o.str();
    c.r("\"q\",");
    codes(c, t.data(), t.size());
}
OP(oloop)
{
    delete gOpt; gOpt = 0;
    std::string os;
    for (size_t k = 0; k < op[1].size(); k++) { os += (char)op[1][k][0].i; if (op[1][k][1].i) os += ':'; }
    int n;
    char** v = args(op[2], 0, n);
    Option o(n, v, os.empty() ? nil : text(os));
    c.r("\"q\",[");
    long left = op[3].i;
    bool first = true;
    while (left-- > 0) {
        if (!o) {
            c.r("],%ld", (long)o.index());
            c.V[op[4].i] = o.args();
            return;
        }
        c.r(first ? "[%d," : ",[%d,", o.get());
        first = false;
        try { var a = o.arg(); codes(c, a.str(), strlen(a.str())); } catch (std::exception&) { c.r("[-1]"); }
        c.r("]");
    }
    c.r("]");
}
