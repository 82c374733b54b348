"""Plant a bug: plant.py DEFS.py.  DEFS.py calls bug(...) for each.  Works in
/tmp/pl, a copy of /repo with a build of its own (made on first use)."""
import json, os, re, subprocess, sys
PL, VERIF = '/tmp/pl', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = [x.split('::')[0] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
BASE = '53c28ba'
DEMO = '''#!/bin/bash
# exit 0: the property holds in what was built here
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
export LD_LIBRARY_PATH=$PWD/_build/lube MKL_CBWR=COMPATIBLE MKL_NUM_THREADS=1
g++ -w -std=c++17 -I. -isystem /usr/include/mkl "$here/demo.cpp" -L_build/lube -lube -o "$w/demo" || exit 9
cd "$w" && timeout 100 ./demo
'''
HEAD = '''#include <cstdio>
#include <cstdlib>
#include <string>
#include <sstream>
#include <iostream>
#include "lube/lube.h"
using namespace libube;
static void check(bool ok, const char* what) { if (!ok) { printf("FAILED: %s\\n", what); fflush(stdout); _exit(1); } }
'''
HEAD = HEAD.replace('#include <cstdlib>', '#include <cstdlib>\n#include <unistd.h>')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def sync():
    sh('cd %s && git checkout -q . ; cd /repo && git archive HEAD | tar x -C %s; cd %s && touch -d "2001-01-01" /dev/null; git add -A; git commit -qm sync' % (PL, PL, PL))
    r = sh('bash /tmp/plb.sh'); assert r.returncode == 0, r.stdout[-2000:]
def bug(id, prop, edits, demo, needs, breaks, head=HEAD):
    if len(sys.argv) > 2 and id not in sys.argv[2:]: return
    d = '%s/seeded/%s' % (VERIF, id)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.cpp', 'w').write(head + demo)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    def fail(m):
        print(id, 'REJECTED:', m[-1500:]); sh('cd %s && git checkout -q . && bash /tmp/plb.sh' % PL)
        sh('rm -rf ' + d); return
    r = sh('bash %s/demo.sh' % d, cwd=PL)
    if r.returncode: return fail('demo fails on the unchanged tree: ' + r.stdout + r.stderr)
    for f, old, new in edits:
        p = '%s/%s' % (PL, f)
        s = open(p).read()
        if s.count(old) != 1: return fail('%d matches of %r' % (s.count(old), old))
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', cwd=PL).stdout
    open(d + '/patch.diff', 'w').write(diff)
    gone = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
    base = set()
    for f in {e[0] for e in edits}: base |= set(sh('git -C /repo show %s:%s' % (BASE, f)).stdout.split('\n'))
    own = [l for l in gone if l not in base]
    if not gone or own: return fail('lines not of the original: %r' % own)
    if sh('git -C /repo apply --check %s/patch.diff' % d).returncode: return fail('does not apply')
    r = sh('bash /tmp/plb.sh')
    if r.returncode: return fail('does not build ' + r.stdout[-1200:])
    r = sh('MKL_CBWR=COMPATIBLE MKL_NUM_THREADS=1 ctest --test-dir %s/_build -j8 --timeout 100 -R "^(%s)$"' % (PL, '|'.join(STABLE)))
    if '100% tests passed' not in r.stdout: return fail('tests fail ' + r.stdout[-900:])
    r = sh('bash %s/demo.sh' % d, cwd=PL)
    if not r.returncode: return fail('demo passes with the change')
    print(id, prop, 'ok:', r.stdout.strip()[-100:], 'rc', r.returncode, flush=True)
    sh('cd %s && git checkout -q . && bash /tmp/plb.sh' % PL)
if __name__ == '__main__':
    sync()
    exec(open(sys.argv[1]).read())
