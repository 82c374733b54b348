// Operations of Fetch.tla.  A place is a file; a server of one thread gives
// the same contents over the loopback network.
#include "drv.h"
#include "lube/curl.h"
#include <arpa/inet.h>
#include <fcntl.h>
#include <fstream>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace libube;

static curlmodule* gMod;
static curl* gIn[3];
static void forget() { for (auto& p : gIn) p = 0; delete gMod; gMod = 0; }
namespace { struct ForgetAtStart { ForgetAtStart() { atStart().push_back(forget); } } gForget; }
static std::string name(int k)
{
    char b[4096];
    std::string d = scratch();
    if (d[0] != '/') d = realpath(scratch(), b);
    return d + "/url" + std::to_string(k);
}

// GET /<how>/<path of the file>; nothing here uses operator new
static int gListen = -1, gPort;
static void send_(int c, const char* p, size_t n)
{
    while (n) {
        ssize_t r = send(c, p, n, MSG_NOSIGNAL);
        if (r <= 0) return;
        p += r;
        n -= r;
    }
}
static void* serve(void*)
{
    for (;;) {
        int c = accept(gListen, 0, 0);
        if (c < 0) continue;
        static char b[8192];
        size_t n = 0;
        while (n < sizeof b - 1) {
            ssize_t r = recv(c, b + n, sizeof b - 1 - n, 0);
            if (r <= 0) break;
            n += r;
            b[n] = 0;
            if (strstr(b, "\r\n\r\n")) break;
        }
        b[n] = 0;
        char* p = strncmp(b, "GET /", 5) ? 0 : b + 5;
        char* e = p ? strchr(p, ' ') : 0;
        if (e) {
            *e = 0;
            bool part = !strncmp(p, "part", 4);
            int f = open(p + 4, O_RDONLY);
            struct stat st;
            if (f >= 0 && !fstat(f, &st)) {
                size_t z = st.st_size;
                char* t = (char*)malloc(z + 1);
                size_t g = 0;
                while (g < z) { ssize_t r = read(f, t + g, z - g); if (r <= 0) break; g += r; }
                char h[200];
                int hn = snprintf(h, sizeof h, "HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\nContent-Length: %zu\r\nConnection: close\r\n\r\n", z);
                send_(c, h, hn);
                send_(c, t, part ? g - 1 : g);
                free(t);
            }
            if (f >= 0) close(f);
        }
        shutdown(c, SHUT_WR);
        while (recv(c, b, sizeof b, 0) > 0) {}
        close(c);
    }
    return 0;
}
static void server()
{
    if (gListen >= 0) return;
    gListen = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a = {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t l = sizeof a;
    pthread_t t;
    if (bind(gListen, (sockaddr*)&a, l) || listen(gListen, 16) || getsockname(gListen, (sockaddr*)&a, &l) || pthread_create(&t, 0, serve, 0)) {
        perror("server");
        _exit(99);
    }
    gPort = ntohs(a.sin_port);
}
static std::string url(int k, const std::string& how)
{
    static int kind;
    std::string n = name(k);
    if (how == "file") return "file://" + n;
    if (how == "bad") {
        switch (kind++ % 3) {
        case 0: return "file://" + n + ".not";
        case 1: return "nosuch://" + n;
        }
        return "";
    }
    server();
    return "http://127.0.0.1:" + std::to_string(gPort) + "/" + how + n;
}
static void put(int k, const std::string& t) { std::ofstream o(name(k), std::ios::binary); o.write(t.data(), t.size()); }
static var fetch(Ctx& c, int i, int k, const std::string& how)
{
    setenv("no_proxy", "*", 1);
    std::string u = url(k, how);
    return gIn[i]->transfer(var(u.c_str()));
}

OP(uput) { put(op[1].i, op[2].bytes()); }
OP(uputn)
{
    std::string t(op[2].i, 0);
    for (size_t i = 0; i < t.size(); i++) t[i] = (char)((int)((i * op[3].i + i / 251 + op[4].i) % 256) - 128);
    put(op[1].i, t);
}
OP(udel) { unlink(name(op[1].i).c_str()); }
OP(unew) { if (!gMod) gMod = new curlmodule; gIn[op[1].i] = &gMod->create(); }
OP(uend) { forget(); }
OP(uget) { var r = fetch(c, op[2].i, op[1].i, op[4].s); c.V[op[3].i] = r; }
OP(ubig)
{
    var r = fetch(c, op[2].i, op[1].i, op[4].s);
    std::ifstream f(name(op[1].i), std::ios::binary);
    std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    bool str = r.heap() && r.atype() == TYPE_CHAR;
    int w = -1;
    if (str) for (size_t i = 0; i < t.size() && i < (size_t)r.size() && w < 0; i++) if (r.str()[i] != t[i]) w = i;
    c.r("\"q\",%d,\"%s\",%d", (int)r.size(), str ? "c" : "?", w);
}
