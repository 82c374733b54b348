// Operations of Paths.tla: all in a directory of this process, which stands
// for the root of the file system
#include "drv.h"
#include "lube/path.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace libube;

static std::string root() { return std::string(scratch()) + "/fs"; }
static std::string fsPath(const J& loc)
{
    std::string r = root();
    for (auto& n : loc.a) r += "/" + n.bytes();
    return r;
}
static void removeAll(const std::string& p)
{
    struct stat st;
    if (lstat(p.c_str(), &st)) return;
    if (S_ISDIR(st.st_mode)) {
        std::vector<std::string> names;
        DIR* d = opendir(p.c_str());
        while (dirent* e = readdir(d)) names.push_back(e->d_name);
        closedir(d);
        for (auto& n : names) if (n != "." && n != "..") removeAll(p + "/" + n);
        rmdir(p.c_str());
    }
    else
        unlink(p.c_str());
}
static pathmodule* gMod;
static std::vector<path*> gPaths;
static void forget()
{
    gPaths.clear();
    delete gMod;
    gMod = 0;
}
namespace { struct ForgetAtStart { ForgetAtStart() { atStart().push_back(forget); } } gForget; }
// The working directory is the root meanwhile
struct Here {
    int was;
    Here() {
        was = open(".", O_RDONLY | O_DIRECTORY);
        if (!gMod) {
            removeAll(root());
            mkdir(root().c_str(), 0700);
            gMod = new pathmodule();
        }
        if (chdir(root().c_str())) throw std::logic_error("chdir");
    }
    ~Here() { if (fchdir(was)) abort(); close(was); }
};
// Paths from the root, as such
static std::string off(const var& s)
{
    std::string t(s.str(), s.size()), r = root();
    return t.compare(0, r.size(), r) == 0 ? t.substr(r.size()) : t;
}
static var text(const std::string& t) { return var((ind)t.size(), t.data()); }
static void listed(Ctx& c, const var& got, int z)
{
    var g = got;
    if (!g) { c.V[z] = g; return; }
    var r;
    for (int i = 0; i < g.size(); i++) {
        var key = text(off(g.key(i)));
        var val = g.at(i);
        if (val) {
            var b;
            for (int k = 0; k < val.size(); k++) b[k] = k ? val.at(k) : text(off(val.at(k)));
            r[key] = b;
        }
        else
            r[key] = nil;
    }
    if (r.size() != g.size()) throw std::logic_error("listed twice");
    c.V[z] = r;
}

OP(fmk)
{
    Here h;
    std::string p = fsPath(op[2]);
    if (op[1].is("d")) { if (mkdir(p.c_str(), 0700)) throw std::logic_error("mkdir"); }
    else if (op[1].is("l")) { if (symlink(fsPath(op[3]).c_str(), p.c_str())) throw std::logic_error("symlink"); }
    else { int f = open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0600); if (f < 0) throw std::logic_error("open"); close(f); }
}
OP(frm) { Here h; removeAll(fsPath(op[1])); }
OP(pmake)
{
    Here h;
    std::string t = op[2].bytes();
    if (op[1].i) t = root() + t;
    gPaths.push_back(&gMod->create(text(t)));
}
OP(phere) { Here h; gPaths.push_back(&gMod->create()); }
OP(pdir) { Here h; path& p = *gPaths.at(op[1].i - 1); listed(c, op[2].i ? p.dir(true) : p.dir(), op[3].i); }
OP(prdir) { Here h; path& p = *gPaths.at(op[1].i - 1); listed(c, op[2].i ? p.rdir(true) : p.rdir(), op[3].i); }
OP(ptree) { Here h; c.V[op[2].i] = gPaths.at(op[1].i - 1)->tree(); }
