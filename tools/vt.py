"""Machinery shared by the checks: build the library and the replayer from
/repo's working tree, run TLC on the specifications, replay the programs it
generates into the library and compare."""
import cmath, json, math, os, re, shutil, subprocess, sys, time, filecmp, random, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
WORK = os.environ.get('VT_WORK', os.path.join(VERIF, 'build'))
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
SRC = os.path.join(WORK, 'src')
BLD = os.path.join(WORK, 'b')
LIB = os.path.join(BLD, 'lube')
RUN = os.path.join(WORK, 'run')
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
CXXFLAGS = '-w -O1 -g1 -fsanitize=address -fno-omit-frame-pointer -isystem /usr/include/mkl'
U = -99999


class CheckError(Exception):
    """The check itself could not do its work."""


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


T0 = time.time()


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode:
        raise CheckError('%s failed:\n%s' % (cmd if isinstance(cmd, str) else ' '.join(cmd), r.stdout[-3000:]))
    return r.stdout


# ---------------------------------------------------------------- building

def sync(src, dst):
    """Copy a tree, touching only the files whose contents differ."""
    os.makedirs(dst, exist_ok=True)
    want = set(os.listdir(src))
    for n in set(os.listdir(dst)) - want:
        p = os.path.join(dst, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    for n in want:
        a, b = os.path.join(src, n), os.path.join(dst, n)
        if os.path.isdir(a):
            sync(a, b)
        elif os.path.isfile(a):
            if not os.path.isfile(b) or not filecmp.cmp(a, b, shallow=False):
                shutil.copyfile(a, b)


LIB2 = os.path.join(WORK, 'second')


def second():
    """The same library with the transpose used where there is no MKL."""
    import glob
    os.makedirs(LIB2, exist_ok=True)
    for f in os.listdir(LIB2): os.unlink(os.path.join(LIB2, f))
    objs = glob.glob(os.path.join(BLD, 'lube', 'CMakeFiles', 'lube-shared.dir', '**', '*.o'), recursive=True)
    mkl = [o for o in objs if os.path.basename(o).startswith('transpose-mkl.')]
    real = [f for f in os.listdir(LIB) if f.startswith('libube.so')]
    if not mkl or not os.path.exists(os.path.join(SRC, 'lube', 'transpose-adhoc.cpp')):
        return                                   # it is the one in use
    o = os.path.join(LIB2, 'adhoc.o')
    sh(['g++', '-std=c++14', '-fPIC'] + CXXFLAGS.split() + ['-I' + SRC, '-I' + BLD, '-c', os.path.join(SRC, 'lube', 'transpose-adhoc.cpp'), '-o', o])
    link = subprocess.run(['ninja', '-C', BLD, '-t', 'commands', 'lube-shared'], stdout=subprocess.PIPE, text=True).stdout.strip().split('\n')[-1]
    so = re.search(r' -o (\S*libube\S*)', link)[1]
    link = link.replace(' -o ' + so, ' -o ' + os.path.join(LIB2, os.path.basename(so)))
    for m in mkl: link = link.replace(os.path.relpath(m, BLD), o)
    sh(['sh', '-c', 'cd "%s" && %s' % (BLD, link)])


def build(targets=(), probes=()):
    """Build libube and the wanted modules with AddressSanitizer, from a copy
    of /repo's working tree, and the replayer."""
    env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')
    env.pop('MKLROOT', None)
    os.makedirs(SRC, exist_ok=True)
    for d in ('cmake', 'lube', 'test'):
        sync(os.path.join(REPO, d), os.path.join(SRC, d))
    a, b = os.path.join(REPO, 'CMakeLists.txt'), os.path.join(SRC, 'CMakeLists.txt')
    if not os.path.exists(b) or not filecmp.cmp(a, b, shallow=False):
        shutil.copyfile(a, b)
    os.makedirs(os.path.join(SRC, 'kiss_fft130'), exist_ok=True)
    wav = os.path.join(SRC, 'test', 'test.wav')
    if not os.path.exists(wav):
        open(wav, 'w').close()
    sh(['cmake', '-S', SRC, '-B', BLD, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
        '-DCMAKE_C_COMPILER=/usr/bin/gcc', '-DCMAKE_CXX_COMPILER=/usr/bin/g++',
        '-DCMAKE_CXX_FLAGS=' + CXXFLAGS, '-DBLA_VENDOR=Intel10_64lp_seq',
        '-DQWT_LIBRARY=/usr/lib/libqwt-qt5.so', '-DQWT_INCLUDE_DIR=/usr/include/qwt'], env=env)
    sh(['ninja', '-C', BLD, 'lube-shared'] + [t + '-lib' for t in targets], env=env)
    second()
    # the replayer
    od = os.path.join(WORK, 'obj')
    os.makedirs(od, exist_ok=True)
    jobs = []
    for f in sorted(os.listdir(HARN)):
        if f.endswith('.cpp') and not f.startswith('mod_'):
            o = os.path.join(od, f[:-4] + '.o')
            jobs.append((['g++', '-std=c++17'] + CXXFLAGS.split() +
                         ['-I' + SRC, '-I' + BLD, '-I' + HARN, '-c', os.path.join(HARN, f), '-o', o], o))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: sh(j[0]), jobs))
    sh(['g++', '-fsanitize=address', '-o', os.path.join(WORK, 'drv')] + [o for _, o in jobs] +
       ['-L' + LIB, '-lube', '-ldl', '-Wl,-rpath,' + LIB])
    for p in probes:
        so = os.path.join(LIB, 'lib%s.so' % p)
        if os.path.exists(os.path.join(HARN, 'mod_%s.txt' % p)):
            shutil.copyfile(os.path.join(HARN, 'mod_%s.txt' % p), so)
        else:
            sh(['g++', '-std=c++17', '-shared', '-fPIC', '-fno-gnu-unique'] + CXXFLAGS.split() +
               ['-I' + SRC, '-I' + BLD, '-I' + HARN, os.path.join(HARN, 'mod_%s.cpp' % p), '-o', so, '-L' + LIB, '-lube'])
    log('built', ' '.join(targets))


# --------------------------------------------------------------------- TLC

def tlaval(x):
    if x is True: return 'TRUE'
    if x is False: return 'FALSE'
    if isinstance(x, (list, tuple)): return '<<' + ', '.join(map(tlaval, x)) + '>>'
    if isinstance(x, (set, frozenset)): return '{' + ', '.join(map(tlaval, sorted(x))) + '}'
    if isinstance(x, str): return '"%s"' % x
    return str(x)


class Tlc:
    """The outcome of one run of TLC."""
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.programs = []
        self.tags = {}
        self.cmd = ''


def write_cfg(path, consts, init='Init', next='Next', invariants=(), constraint=None, view=None,
              postcondition=None, properties=(), action_constraint=None):
    with open(path, 'w') as f:
        f.write('INIT %s\nNEXT %s\n' % (init, next))
        if consts:
            f.write('CONSTANTS\n')
            for k, v in consts.items():
                if isinstance(v, str) and v.startswith('<-'):
                    f.write('  %s <- %s\n' % (k, v[2:]))
                else:
                    f.write('  %s = %s\n' % (k, tlaval(v)))
        for i in invariants: f.write('INVARIANT %s\n' % i)
        for i in properties: f.write('PROPERTY %s\n' % i)
        if constraint: f.write('CONSTRAINT %s\n' % constraint)
        if action_constraint: f.write('ACTION_CONSTRAINT %s\n' % action_constraint)
        if view: f.write('VIEW %s\n' % view)
        if postcondition: f.write('POSTCONDITION %s\n' % postcondition)
        f.write('CHECK_DEADLOCK FALSE\n')


def tlc(module, consts, next='Next', sim=None, seed=1, workers=1, timeout=600, tag='T', heap='3g', **kw):
    """Run TLC.  sim=(num, depth) simulates, else breadth first search.
    Lines printed as strings starting with `tag` are programs."""
    name = '%s_%d_%d' % (module, os.getpid(), random.randrange(1 << 30))
    d = os.path.join(RUN, name)
    os.makedirs(d)
    cfg = os.path.join(d, 'm.cfg')
    write_cfg(cfg, consts, next=next, **kw)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', CP, 'tlc2.TLC',
           '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg]
    if sim:
        cmd += ['-simulate', 'num=%d' % sim[0], '-depth', str(sim[1]), '-seed', str(seed)]
    else:
        cmd += ['-seed', str(seed), '-fp', str(seed % 100)]
    cmd += [module + '.tla']
    res = Tlc()
    res.cmd = ' '.join(cmd[cmd.index('tlc2.TLC'):])
    other = []
    p = subprocess.Popen(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    pre = '"' + tag
    for line in p.stdout:
        if line.startswith(pre):
            line = line.rstrip('\n')
            try:
                res.programs.append(json.loads(json.loads(line)[len(tag):]))
            except ValueError:
                raise CheckError('cannot read: ' + line[:300])
        else:
            other.append(line)
            if len(other) > 5000: del other[:2500]
    p.wait()
    timer.cancel()
    txt = ''.join(other)
    m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', txt)
    if m:
        res.states, res.distinct = int(m[1].replace(',', '')), int(m[2].replace(',', ''))
    else:
        m = re.search(r'The number of states generated: ([\d,]+)', txt)
        if m: res.states = res.distinct = int(m[1].replace(',', ''))
    shutil.rmtree(d, ignore_errors=True)
    res.out = txt
    if p.returncode == -9:
        raise CheckError('TLC timed out on %s %s' % (module, consts))
    if p.returncode != 0:
        m = re.search(r'Error:.*', txt, re.S)
        raise CheckError('TLC failed on %s %s:\n%s\n...\n%s' % (module, consts, m[0][:1500] if m else '', txt[-1500:]))
    return res


def simulate(module, consts, num, depth, seed, procs=4, **kw):
    """Several simulations in parallel, with seeds derived from seed."""
    per = max(1, num // procs)
    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(lambda i: tlc(module, consts, sim=(per, depth), seed=seed * 1000 + i, **kw), range(procs)))
    r = Tlc()
    for x in rs:
        r.states += x.states
        r.distinct += x.distinct
        r.programs += x.programs
    r.cmd = rs[0].cmd
    return r


# ------------------------------------------------------------------ replay

def expect_obs(obs):
    """The model's state in the form the replayer shows it."""
    vals, cells = obs
    ids = {}

    def show(x):
        if x[0] != 'h': return x
        if x[1] in ids: return ['h', ids[x[1]]]
        ids[x[1]] = n = len(ids) + 1
        c = cells[x[1] - 1]
        if c[0] == 'a':
            return ['h', n, c[1], [show(e) for e in c[2]] if c[1] == 'v' else c[2]]
        if c[0] == 'm':
            return ['h', n, 'm', [[show(k), show(v)] for k, v in c[1]]]
        b = cells[c[1] - 1]
        size = 1
        for k in c[3]: size *= k
        e = b[2][c[2]:c[2] + size]
        return ['h', n, 'w', c[2], c[3], b[1], [show(y) for y in e] if b[1] == 'v' else e]
    return [show(v) for v in vals]


def number(a):
    return isinstance(a, list) and len(a) == 2 and all(isinstance(x, (int, float)) for x in a)


def near_cyc(e, a):
    """A sum of powers of exp(-2 pi i / n), in quarters, to rounding (see Transform.tla)."""
    n, den, prec, cs = e[1:5]
    if not number(a): return False
    z = sum((complex(re, im) * cmath.exp(-2j * cmath.pi * k / n) for k, re, im in cs), 0j) / 4 / den
    size = sum(abs(re) + abs(im) for k, re, im in cs) / 4 / den
    if len(e) > 5: size = e[5] / 4
    return abs(complex(*a) - z) <= (3e-6 if prec == 'f' else 1e-14) * (size + 40.0 / den) * (1 + math.log2(n))


def near_set(e, a):
    """The given complex numbers, in quarters, in any order, to so many digits."""
    _, digits, q = e
    if not isinstance(a, list) or len(a) != len(q) or not all(number(x) for x in a): return False
    left = [complex(*x) for x in a]
    for re, im in q:
        z = complex(re, im) / 4
        w = min(left, key=lambda x: abs(x - z))
        if abs(w - z) > 10.0 ** -digits * (1 + abs(z)): return False
        left.remove(w)
    return True


def same(e, a):
    """Does the shown value a agree with the expected e (U is anything)?"""
    if e == a: return True
    if isinstance(e, list) and e and e[0] == 'cyc': return near_cyc(e, a)
    if e == ['any']: return True
    if isinstance(e, list) and e and e[0] == 'set': return near_set(e, a)
    if isinstance(e, list):
        return isinstance(a, list) and len(e) == len(a) and all(same(x, y) for x, y in zip(e, a))
    if isinstance(e, bool) or isinstance(a, bool): return e == a
    return isinstance(e, int) and e == U


class Prog:
    """A program and what the specification says of it.  steps: list of
    (op, status, result, obs, drop); obs None when not checked."""
    __slots__ = ('steps', 'quiet', 'nv', 'before')

    def __init__(self, steps, quiet=False, nv=3):
        self.steps = steps
        self.quiet = quiet
        self.nv = nv

    def line(self, k):
        return json.dumps([k, int(self.quiet), self.nv, [s[0] for s in self.steps]], separators=(',', ':')) + '\n'


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:color=never',
           LD_LIBRARY_PATH=LIB, LC_ALL='C', VT_SCRATCH=os.path.join(WORK, 'scratch'))


def feed(progs, env=None, cwd=None):
    """Run one replayer on some programs; returns (lines per program, stderr)
    and the index of the program it died on, if it did."""
    p = subprocess.run([os.path.join(WORK, 'drv')], input=''.join(q.line(k) for k, q in enumerate(progs)),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                       env=env or ENV, cwd=cwd)
    outs = []
    for line in p.stdout.split('\n'):
        if line.startswith('#'): outs.append([])
        elif line and outs: outs[-1].append(line)
    return outs, p.stderr, p.returncode


def judge(prog, lines, died, stderr):
    """None if the outcome agrees with the specification, else what differs."""
    steps = prog.steps
    want = [len(steps) - 1] if prog.quiet else range(len(steps))
    prev = 0
    for n, k in enumerate(want):
        if n >= len(lines):
            return {'step': k, 'op': steps[k][0], 'what': 'the library crashed, aborted or hung', 'detail': died_detail(stderr)}
        try:
            st, res, live, obs = json.loads(lines[n])
        except ValueError:
            return {'step': k, 'op': steps[k][0], 'what': 'the library crashed, aborted or hung', 'detail': died_detail(stderr)}
        op, est, eres, eobs, drop = steps[k]
        if st != est:
            return {'step': k, 'op': op, 'what': 'status', 'expected': est, 'got': st}
        if st == 'ok' and eres is not None and not same(eres, res):
            return {'step': k, 'op': op, 'what': 'result', 'expected': eres, 'got': res}
        if eobs is not None:
            e = expect_obs(eobs)
            if not same(e, obs):
                return {'step': k, 'op': op, 'what': 'state', 'expected': e, 'got': obs}
        if drop and not prog.quiet and live >= prev:
            return {'step': k, 'op': op, 'what': 'storage not released', 'expected': 'fewer than %d blocks' % prev, 'got': live}
        prev = live
    if len(lines) <= len(want):
        return {'step': len(steps), 'what': 'the library crashed, aborted or hung at the end', 'detail': died_detail(stderr)}
    try:
        leak = json.loads(lines[len(want)])[1]
    except (ValueError, IndexError):
        leak = None
    if leak != 0:
        return {'step': len(steps), 'what': 'storage leaked or released twice', 'got': leak}
    return None


def died_detail(stderr):
    m = re.search(r'(ERROR: AddressSanitizer:.*?)(?:\n\n|\Z)', stderr, re.S)
    t = m[1] if m else stderr
    return t[-200:] if not m else '\n'.join(t.split('\n')[:8])


def replay(progs, procs=8, limit=4, batch=400, env=None, cwd=None):
    """Replay programs; returns a list of (program, difference)."""
    bad = []
    lock = threading.Lock()
    done = [0]

    def work(chunk):
        i = 0
        while i < len(chunk):
            with lock:
                if len(bad) >= limit: return
            outs, err, rc = feed(chunk[i:], env, cwd)
            died = rc != 0
            if rc == 4: raise CheckError('replayer: ' + err[-500:])
            if not outs: raise CheckError('replayer did not run: %s %s' % (rc, err[-500:]))
            for k, lines in enumerate(outs):
                d = judge(chunk[i + k], lines, died and k == len(outs) - 1, err)
                with lock:
                    done[0] += 1
                    if d:
                        chunk[i + k].before = chunk[i:i + k]
                        bad.append((chunk[i + k], d))
            i += len(outs)
            if not died and i < len(chunk): raise CheckError('replayer stopped early')
    shutil.rmtree(ENV['VT_SCRATCH'], ignore_errors=True)
    os.makedirs(ENV['VT_SCRATCH'])
    chunks = [progs[i:i + batch] for i in range(0, len(progs), batch)]
    with ThreadPoolExecutor(procs) as ex:
        list(ex.map(work, chunks))
    shutil.rmtree(ENV['VT_SCRATCH'], ignore_errors=True)
    os.makedirs(ENV['VT_SCRATCH'])
    return bad, done[0]


def confirm(prog, env=None, cwd=None):
    """Run one program on its own, twice; the difference if both times."""
    d = None
    for _ in range(2):
        outs, err, rc = feed([prog], dict(env or ENV, DRV_FLUSH='1'), cwd)
        if rc == 4 or not outs: raise CheckError('replayer: ' + err[-500:])
        d = judge(prog, outs[0], rc != 0, err)
        if not d: return None
    return d


def confirm_batch(prog, env=None, cwd=None):
    """As confirm, after the programs that ran before it in the same process."""
    ps = getattr(prog, 'before', []) + [prog]
    d = None
    for _ in range(2):
        outs, err, rc = feed(ps, dict(env or ENV, DRV_FLUSH='1'), cwd)
        if rc == 4 or not outs: raise CheckError('replayer: ' + err[-500:])
        if len(outs) < len(ps):
            k = len(outs) - 1   # another one fails here: just as good
            d = judge(ps[k], outs[k], True, err)
        else:
            d = judge(prog, outs[-1], rc != 0, err)
        if not d: return None
    return dict(d, note='only after other programs in the same process')
