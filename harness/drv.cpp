// Replayer of programs generated from the specifications: main loop.
// Input: one JSON program per line, [number, quiet, nvars, [op...]].
// Output: "#number", then a line per operation (the last one only when
// quiet): [status, result, live blocks, [variables...]], then [end, leaked].
#include "drv.h"
#include <filesystem>
#include <unistd.h>
#include <cstdarg>
#include <unistd.h>
#include <signal.h>
#include <new>
using namespace libube;

long gLive = 0;
void* operator new(size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); gLive++; return p; }
void* operator new[](size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); gLive++; return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n); if (p) gLive++; return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n); if (p) gLive++; return p; }
void operator delete(void* p) noexcept { if (p) gLive--; free(p); }
void operator delete[](void* p) noexcept { if (p) gLive--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) gLive--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) gLive--; free(p); }

static const size_t OUTMAX = 1 << 24;
char* gOut = 0;
size_t gLen = 0;
void outflush()
{
    size_t o = 0;
    while (o < gLen) {
        ssize_t n = write(1, gOut + o, gLen - o);
        if (n <= 0) _exit(3);
        o += n;
    }
    gLen = 0;
}
void outs(const char* s)
{
    size_t n = strlen(s);
    if (gLen + n + 1 > OUTMAX) outflush();
    memcpy(gOut + gLen, s, n);
    gLen += n;
}
void outf(const char* fmt, ...)
{
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    outs(b);
}
void outq(const std::string& s)
{
    outs("\"");
    for (unsigned char ch : s) {
        if (ch < 32 || ch >= 127 || ch == '"' || ch == '\\') outf("\\u%04x", ch);
        else outf("%c", ch);
    }
    outs("\"");
}
static const long W[] = {(1L << 31) + 1, (1L << 32) + 1, (1L << 40) + 1, (1L << 52) - 1, 1L << 62};
static const long W0 = 500000001;
long wide(long c)
{
    if (c >= W0 && c < W0 + 5) return W[c - W0];
    if (c <= -W0 && c > -W0 - 5) return -W[-c - W0];
    return c;
}
double wideReal(long q)
{
    long k = wide(q / 4);
    return k == q / 4 ? q / 4.0 : k + (q % 4) / 4.0;
}
long narrow(long x)
{
    for (int i = 0; i < 5; i++) {
        if (x == W[i]) return W0 + i;
        if (x == -W[i]) return -W0 - i;
    }
    return x;
}
void outn(double x)
{
    double q = x * 4;
    if (std::fabs(x) > 2e9 && std::fabs(x) < 1e19) {
        long k = (long)x;
        if (narrow(k) != k) { outf("%ld", 4 * narrow(k) + (long)((x - k) * 4)); return; }
    }
    if (std::isfinite(q) && q == std::floor(q) && std::fabs(q) < 1e15) outf("%ld", (long)q);
    else outf("\"%.17g\"", x);
}
void Ctx::r(const char* fmt, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    res += b;
}

const char* parseJ(const char* p, J& j)
{
    while (*p == ' ' || *p == ',') p++;
    if (*p == '[') {
        j.t = 2;
        p++;
        while (true) {
            while (*p == ' ' || *p == ',') p++;
            if (*p == ']') return p + 1;
            if (!*p) { fprintf(stderr, "bad program\n"); _exit(4); }
            j.a.emplace_back();
            p = parseJ(p, j.a.back());
        }
    }
    if (*p == '"') {
        j.t = 1;
        for (p++; *p && *p != '"'; p++) {
            if (*p == '\\') p++;
            j.s += *p;
        }
        return p + 1;
    }
    if (!strncmp(p, "true", 4)) { j.i = 1; return p + 4; }
    if (!strncmp(p, "false", 5)) { j.i = 0; return p + 5; }
    char* e;
    j.i = strtol(p, &e, 10);
    if (e == p) { fprintf(stderr, "bad program: %.20s\n", p); _exit(4); }
    return e;
}

static void showElem(ind t, const var& e)
{
    switch (t) {
    case TYPE_CHAR: outf("%d", (int)e.get<char>()); break;
    case TYPE_INT: outf("%d", e.get<int>()); break;
    case TYPE_LONG: outf("%ld", narrow(e.get<long>())); break;
    case TYPE_FLOAT: outn(e.get<float>()); break;
    case TYPE_DOUBLE: outn(e.get<double>()); break;
    case TYPE_CFLOAT: {
        cfloat z = e.get<cfloat>();
        outs("["); outn(z.real()); outs(","); outn(z.imag()); outs("]");
        break;
    }
    case TYPE_CDOUBLE: {
        cdouble z = e.get<cdouble>();
        outs("["); outn(z.real()); outs(","); outn(z.imag()); outs("]");
        break;
    }
    default: outf("\"type %d\"", (int)t);
    }
}

static const char* cType = "?cilfdyzvp";

// Show a value.  Storage is numbered in order of first appearance; it is
// shown in full the first time and as its number after that.
void show(const var& v, Ids& ids)
{
    if (!v.defined()) { outs("[\"n\"]"); return; }
    ind t = v.type();
    if (t != TYPE_ARRAY) {
        outf("[\"%c\",", cType[(int)t]);
        showElem(t, v);
        outs("]");
        return;
    }
    IHeap* h = v.heap();
    auto it = ids.find(h);
    if (it != ids.end()) { outf("[\"h\",%d]", it->second); return; }
    int id = ids.size() + 1;
    ids[h] = id;
    t = v.atype();
    outf("[\"h\",%d,", id);
    if (v.view()) {
        outf("\"w\",%d,[", v.offset());
        for (int i = 0; i < v.dim(); i++) outf(i ? ",%d" : "%d", v.shape(i));
        outs("],");
    }
    if (t == TYPE_PAIR) {
        outs("\"m\",[");
        for (int i = 0; i < v.size(); i++) {
            if (i) outs(",");
            outs("[");
            show(v.key(i), ids);
            outs(",");
            show(v.at(i), ids);
            outs("]");
        }
    } else {
        outf("\"%c\",[", cType[(int)t]);
        for (int i = 0; i < v.size(); i++) {
            if (i) outs(",");
            if (t == TYPE_VAR) show(v.at(i), ids);
            else showElem(t, v.at(i));
        }
    }
    outs("]]");
}

std::map<std::string, OpFn>& ops()
{
    static std::map<std::string, OpFn> m;
    return m;
}

std::vector<void (*)()>& atStart()
{
    static std::vector<void (*)()> f;
    return f;
}

static char gScratch[600];
static void emptyScratch()
{
    if (!gScratch[0]) return;
    std::error_code e;
    for (auto& f : std::filesystem::directory_iterator(gScratch, e)) std::filesystem::remove_all(f.path(), e);
}
const char* scratch()
{
    if (!gScratch[0]) {
        const char* d = getenv("VT_SCRATCH");
        snprintf(gScratch, sizeof gScratch, "%s/sXXXXXX", d ? d : ".");
        if (!mkdtemp(gScratch)) { perror("mkdtemp"); _exit(4); }
        atStart().push_back(emptyScratch);
    }
    return gScratch;
}

static bool oneOp(const J& op, Ctx& c)
{
    c.res.clear();
    auto it = ops().find(op[0].s);
    if (it == ops().end()) { fprintf(stderr, "unknown op %s\n", op[0].s.c_str()); _exit(4); }
    try { it->second(op, c); return true; }
    catch (std::exception& e) { c.res.clear(); return false; }
}

static long run(const J& prog, bool print)
{
    bool quiet = prog[1].i;
    int nv = prog[2].i;
    const J& p = prog[3];
    static const bool flush = getenv("DRV_FLUSH");
    for (size_t i = 0; i < atStart().size(); i++) atStart()[i]();
    long base = gLive;
    {
        Ctx c;
        c.res.reserve(65536);
        for (size_t k = 0; k < p.size(); k++) {
            bool ok = oneOp(p[k], c);
            long live = gLive - base;
            if (print && (!quiet || k + 1 == p.size())) {
                outf("[\"%s\",[", ok ? "ok" : "throw");
                outs(c.res.c_str());
                outf("],%ld,[", live);
                Ids ids;
                for (int i = 1; i <= nv; i++) {
                    if (i > 1) outs(",");
                    show(c.V[i], ids);
                }
                for (int i = 0; i < c.extras; i++) { outs(","); show(c.extra(i), ids); }
                outs("]]\n");
                if (flush) outflush();
            }
        }
    }
    for (size_t i = 0; i < atStart().size(); i++) atStart()[i]();
    return gLive - base;
}

// The library may end the program where it should not
static void ended()
{
    outflush();
    fprintf(stderr, "the program was ended\n");
    _exit(3);
}

int main(int argc, char** argv)
{
    atexit(ended);
    gOut = (char*)malloc(OUTMAX);
    char* line = 0;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, stdin)) > 0) {
        J prog;
        parseJ(line, prog);
        outf("#%ld\n", prog[0].i);
        outflush();
        alarm(20);
        long leak = run(prog, true);
        // Things allocated once and for all do not count: run it again
        if (leak) leak = run(prog, false);
        if (leak) leak = run(prog, false);
        outf("[\"end\",%ld]\n", leak);
        alarm(0);
    }
    outflush();
    fflush(stdout);
    if (gScratch[0]) { emptyScratch(); rmdir(gScratch); }
    _exit(0);
}
