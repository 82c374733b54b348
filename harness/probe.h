#ifndef PROBE_H
#define PROBE_H
struct ProbeLog {
    int n, ids;
    long ev[1000];
    void say(int what, int lib, int id) { if (n < 1000) ev[n++] = what * 100000L + lib * 1000 + id; }
};
#endif
