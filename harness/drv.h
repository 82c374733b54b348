// Replayer of programs generated from the specifications: common parts.
#ifndef DRV_H
#define DRV_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <stdexcept>
#include "lube/lube.h"

// A JSON value of a program: an integer, a string or an array
struct J {
    int t;               // 0 int, 1 string, 2 array
    long i;
    std::string s;
    std::vector<J> a;
    J() : t(0), i(0) {}
    const J& operator[](size_t k) const { return a.at(k); }
    size_t size() const { return a.size(); }
    bool is(const char* x) const { return t == 1 && s == x; }
    std::string bytes() const {  // a sequence of codes
        std::string r;
        for (auto& x : a) r += (char)x.i;
        return r;
    }
};
const char* parseJ(const char* p, J& j);

// Output buffer: a fixed one, so that it does not disturb the block count
extern char* gOut;
extern size_t gLen;
void outs(const char* s);
void outf(const char* fmt, ...);
void outq(const std::string& s);   // JSON string
void outn(double x);               // a real number, in quarters when integral
// The specification's integers have 32 bits: codes from 500000001 stand for
// some wide ones (see Values.tla)
long wide(long code);
double wideReal(long quarters);
long narrow(long x);
void outflush();

extern long gLive;                 // live blocks of operator new

typedef std::map<libube::IHeap*, int> Ids;
void show(const libube::var& v, Ids& ids);
libube::var lit(const J& j);       // build a literal

struct Ctx {
    std::vector<libube::var> V;    // V[1..]
    std::string res;               // result of a query: JSON text
    int extras;                    // further holders to be shown
    libube::var (*extra)(int);
    Ctx() : V(10), extras(0), extra(0) {}
    void r(const char* fmt, ...);
};
typedef void (*OpFn)(const J& op, Ctx& c);
std::map<std::string, OpFn>& ops();
std::vector<void (*)()>& atStart();   // what to forget before each program
const char* scratch();                // a directory of this process, empty at start
struct Reg { Reg(const char* n, OpFn f) { ops()[n] = f; } };
#define OP(NAME) \
    static void op_##NAME(const J& op, Ctx& c); \
    static Reg reg_##NAME(#NAME, op_##NAME); \
    static void op_##NAME(const J& op, Ctx& c)

// Walk a path with operator [] and call f on what it denotes
void walk(libube::var& b, const J& path, size_t i,
          const std::function<void(libube::var&)>& f);
// Evaluate an operand and call f with it: variables by copy, elements as
// live references
void operand(const J& src, Ctx& c, const std::function<void(libube::var&)>& f);
#endif
