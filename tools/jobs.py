"""What each property's check runs: which specification, which constants, how
many programs."""
import os
import vt


class Job:
    """One run of TLC and how to make programs of what it prints."""
    def __init__(self, name, module, consts, mode, seed, num=0, depth=60, next=None, nv=3, conv=None, procs=6,
                 invariants=('WF',), view='StateView', cwd=None, env=None, timeout=800, workers=1, **kw):
        self.name, self.module, self.consts, self.mode, self.seed = name, module, consts, mode, seed
        self.num, self.depth, self.next, self.nv, self.conv, self.procs = num, depth, next, nv, conv, procs
        self.invariants, self.view, self.kw = invariants, view, kw
        self._cwd, self._env, self.timeout, self.workers = cwd, env, timeout, workers

    def env(self): return dict(vt.ENV, **(self._env or {}))
    def cwd(self): return self._cwd() if callable(self._cwd) else self._cwd

    def generate(self):
        if self.mode == 'sim':
            r = vt.simulate(self.module, self.consts, self.num, self.depth, self.seed, self.procs,
                            next=self.next or 'NextRandom', invariants=self.invariants, timeout=self.timeout, **self.kw)
        else:
            r = vt.tlc(self.module, self.consts, next=self.next or 'NextAll', seed=self.seed, workers=self.workers,
                       invariants=self.invariants, view=self.view, timeout=self.timeout, heap='8g', **self.kw)
        conv = self.conv or (steps if self.mode == 'sim' else last_step)
        return r, [conv(p, self.nv) for p in r.programs]


def steps(p, nv):
    """A random behaviour: every step carries what is expected."""
    return vt.Prog([tuple(s) for s in p], nv=nv)


def whole(p, nv):
    """Only the last step is compared: the others are so on shorter paths."""
    return vt.Prog([(x[0], None, None, None, False) for x in p[:-1]] + [tuple(p[-1])], quiet=True, nv=nv)


def last_step(p, nv):
    """A path to a state and one more operation, the last, to be compared."""
    return vt.Prog([(o, None, None, None, False) for o in p[0][:-1]] + [(p[0][-1],) + tuple(p[1:])], quiet=True, nv=nv)


def q(tier, quick, thorough):
    return thorough if tier == 'thorough' else quick


# ------------------------------------------------------------------- Store

def store(profile, nsim, dq, dt):
    """dq, dt: depth of the exhaustive search"""
    def jobs(tier, seed, rnd):
        nv = 3 if profile == 'view' else 2
        if rnd == 0:
            yield Job('exhaustive ' + profile, 'StoreGen',
                      dict(NV=nv, Profile=profile, MaxLen=6 if profile == 'view' else 3, MaxCells=5,
                           Depth=q(tier, dq, dt), Random=False), 'bfs', seed, nv=nv)
        yield Job('random ' + profile, 'StoreGen',
                  dict(NV=3, Profile=profile, MaxLen=10, MaxCells=14, Depth=30, Random=True), 'sim', seed,
                  num=q(tier, nsim, 8 * nsim), depth=80)
        yield Job('long ' + profile, 'StoreGen',
                  dict(NV=3, Profile=profile, MaxLen=90, MaxCells=60, Depth=16, Random=True), 'sim', seed + 1,
                  num=q(tier, nsim // 6, nsim), depth=50)
    return jobs


def results(p, nv):
    """Only statuses and results."""
    return vt.Prog([(o[0], o[1], o[2], None, False) for o in p], nv=nv)


def order(tier, seed, rnd):
    if rnd == 0:
        yield Job('all pairs and triples', 'OrderGen', dict(Size2=2), 'bfs', seed, next='Next', nv=2, conv=results,
                  invariants=['Equivalence', 'TotalOrder', 'NilFirst'], view=None)
    yield Job('long order', 'StoreGen', dict(NV=3, Profile='order', MaxLen=90, MaxCells=90, Depth=16, Random=True),
              'sim', seed + 1, num=q(tier, 1500, 9000), depth=50)
    yield Job('random order', 'StoreGen', dict(NV=3, Profile='order', MaxLen=10, MaxCells=24, Depth=30, Random=True),
              'sim', seed, num=q(tier, 9000, 60000), depth=80)


def sorting(tier, seed, rnd):
    if rnd == 0:
        yield Job('all small arrays', 'SortGen', dict(MaxN=q(tier, 4, 6)), 'bfs', seed, next='Next', conv=steps,
                  invariants=['Ordered'], view=None, workers=8)
    yield Job('long sort', 'StoreGen', dict(NV=3, Profile='sort', MaxLen=90, MaxCells=90, Depth=16, Random=True),
              'sim', seed + 1, num=q(tier, 1500, 9000), depth=50)
    yield Job('random sort', 'StoreGen', dict(NV=3, Profile='sort', MaxLen=10, MaxCells=24, Depth=30, Random=True),
              'sim', seed, num=q(tier, 9000, 60000), depth=80)


def json_(profile):
    def jobs(tier, seed, rnd):
        yield Job('random ' + profile, 'JsonGen',
                  dict(NV=3, Profile=profile, MaxLen=100, MaxCells=100, Depth=25, Random=True), 'sim', seed,
                  num=q(tier, 9000, 60000), depth=80, init='JInit', next='JNext', invariants=['WF'])
        if rnd == 0:
            yield Job('all small ' + ('values' if profile == 'write' else 'texts'), 'JsonAll',
                      dict(MaxN=q(tier, 4, 5), Rich=False, What='values' if profile == 'write' else 'texts'), 'bfs', seed,
                      conv=steps, next='Next', view=None, invariants=['Survives'], workers=8)
            if profile == 'read':
                yield Job('texts of more tokens', 'JsonAll', dict(MaxN=q(tier, 3, 4), Rich=True, What='texts'), 'bfs', seed,
                          conv=steps, next='Next', view=None, invariants=['Survives'], workers=8)
            yield Job('in the model ' + profile, 'JsonGen',
                      dict(NV=2, Profile=profile, MaxLen=10, MaxCells=20, Depth=20, Random=True), 'sim', seed,
                      num=300, depth=80, nv=2, init='JInit', next='JNext', invariants=['WF', 'RoundTrip', 'Prefixes'])
    return jobs


def stream(tier, seed, rnd):
    if rnd == 0:
        yield Job('exhaustive streams', 'Stream', dict(NV=2, NS=1, Profile='stream', MaxLen=5, MaxCells=5, Depth=q(tier, 8, 11), Random=False), 'bfs',
                  seed, nv=2, init='SInit', next='SNextAll', conv=whole, invariants=['WF', 'Positions'], view='SView')
    yield Job('random streams', 'Stream', dict(NV=3, NS=2, Profile='stream', MaxLen=30, MaxCells=12, Depth=40, Random=True), 'sim', seed,
              num=q(tier, 9000, 60000), depth=90, init='SInit', next='SNext', invariants=['WF', 'Positions'])
    yield Job('long streams', 'Stream', dict(NV=3, NS=2, Profile='stream', MaxLen=250, MaxCells=12, Depth=16, Random=True), 'sim', seed + 1,
              num=q(tier, 2000, 12000), depth=60, init='SInit', next='SNext', invariants=['WF', 'Positions'])


def strfun(tier, seed, rnd):
    yield Job('random text', 'StrFun', dict(NV=3, Profile='order', MaxLen=40, MaxCells=40, Depth=30, Random=True, Alpha='text'), 'sim', seed,
              num=q(tier, 9000, 60000), depth=90, next='TNext', invariants=['WF'])
    yield Job('random bytes', 'StrFun', dict(NV=3, Profile='order', MaxLen=40, MaxCells=40, Depth=30, Random=True, Alpha='bytes'), 'sim', seed + 1,
              num=q(tier, 3000, 20000), depth=90, next='TNext', invariants=['WF'])
    yield Job('long text', 'StrFun', dict(NV=3, Profile='order', MaxLen=400, MaxCells=120, Depth=20, Random=True, Alpha='text'), 'sim', seed + 2,
              num=q(tier, 1500, 9000), depth=60, next='TNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all short strings', 'StrAll', dict(NV=3, Profile='order', MaxLen=40, MaxCells=40, Depth=30, Random=False, Alpha='text', MaxN=q(tier, 4, 6),
                                                      Letters={97, 44, 32, 10}), 'bfs',
                  seed, init='AInit', next='ANext', conv=steps, view=None, invariants=['WF'], workers=8)
        yield Job('in the model', 'StrFun', dict(NV=3, Profile='order', MaxLen=40, MaxCells=20, Depth=20, Random=True, Alpha='text'), 'sim', seed,
                  num=300, depth=60, next='TNext', invariants=['WF', 'JoinSplit', 'Strips'])


def lines(tier, seed, rnd):
    c = dict(NV=3, NS=2, Profile='plain', MaxLen=300, MaxCells=30, Depth=25, Random=True)
    yield Job('random lines and files', 'Lines', c, 'sim', seed, num=q(tier, 6000, 40000), depth=90, init='LInit', next='LNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all line lengths', 'Lines', dict(c, MaxLen=q(tier, 140, 1100)), 'bfs', seed, init='LInit', next='AllLines', conv=steps, view=None, invariants=['WF'], workers=8)
        yield Job('in the model', 'Lines', c, 'sim', seed + 1, num=200, depth=60, init='LInit', next='LNext', invariants=['WF', 'Whole'])


def arith(tier, seed, rnd):
    yield Job('random arithmetic', 'ArithGen', dict(NV=3, Profile='plain', MaxLen=10, MaxCells=24, Depth=30, Random=True), 'sim', seed,
              num=q(tier, 12000, 80000), depth=90, next='ArNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all shapes', 'ArithGen', dict(NV=3, Profile='plain', MaxLen=q(tier, 20, 60), MaxCells=24, Depth=30, Random=True), 'bfs', seed,
                  init='ArInit', next='ArAll', conv=steps, view=None, invariants=['WF'], workers=8)


def linear(tier, seed, rnd):
    c = dict(NV=3, Profile='plain', MaxLen=40, MaxCells=24, Depth=30, Random=True, Big=q(tier, 4, 6))
    yield Job('random linear algebra', 'LinearGen', c, 'sim', seed, num=q(tier, 9000, 60000), depth=90, next='LNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all shapes', 'LinearGen', c, 'bfs', seed, init='LInit', next='LAll', conv=steps, view=None, invariants=['WF'], workers=8)
        yield Job('all shapes, the transpose without MKL', 'LinearGen', c, 'bfs', seed, init='LInit', next='LAll', conv=steps, view=None, workers=8,
                  env=dict(LD_LIBRARY_PATH=vt.LIB2 + ':' + vt.LIB))
        yield Job('random transposes without MKL', 'LinearGen', dict(c, Profile='flip'), 'sim', seed + 2, num=q(tier, 1500, 10000), depth=60, next='LNext', invariants=['WF'],
                  env=dict(LD_LIBRARY_PATH=vt.LIB2 + ':' + vt.LIB))
        yield Job('in the model', 'LinearGen', c, 'sim', seed + 1, num=200, depth=60, next='LNext', invariants=['WF', 'TransposeBack', 'ProductBack'])


def transforms(tier, seed, rnd):
    c = dict(NV=3, Profile='plain', MaxLen=60, MaxCells=24, Depth=25, Random=True, Big=4)
    yield Job('random transforms', 'TransformGen', c, 'sim', seed, num=q(tier, 6000, 40000), depth=80, next='FNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all sizes', 'TransformGen', dict(c, MaxLen=q(tier, 40, 300)), 'bfs', seed, init='FInit', next='FAll', conv=steps, view=None,
                  invariants=['WF', 'Transformed'], workers=8)
        yield Job('in the model', 'TransformGen', c, 'sim', seed + 1, num=200, depth=60, next='FNext', invariants=['WF', 'RootsBack'])


def ranges(tier, seed, rnd):
    c = dict(NV=3, Profile='plain', MaxLen=300, MaxCells=30, Depth=30, Random=True, Big=q(tier, 4, 7))
    yield Job('random ranges and constructors', 'RangeGen', c, 'sim', seed, num=q(tier, 9000, 60000), depth=90, next='RgNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all ranges between small limits', 'RangeGen', c, 'bfs', seed, init='RgInit', next='RgAll', conv=steps, view=None,
                  invariants=['WF', 'Defined'], workers=8)


def conversions(tier, seed, rnd):
    c = dict(NV=3, Profile='plain', MaxLen=40, MaxCells=30, Depth=30, Random=True, MaxN=q(tier, 4, 5),
             Letters={48, 53, 46, 45, 101, 32, 40, 41, 44} if tier == 'thorough' else {48, 53, 46, 45, 101, 32, 40})
    yield Job('random conversions and functions', 'ConvGen', c, 'sim', seed, num=q(tier, 9000, 60000), depth=110, next='CvNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all short texts', 'ConvGen', c, 'bfs', seed, init='TextInit', next='CvTexts', conv=steps, view=None, invariants=['WF'], workers=8)
        yield Job('all small numbers', 'ConvGen', c, 'bfs', seed, init='NumInit', next='CvNums', conv=steps, view=None, invariants=['WF'], workers=8)
        yield Job('all tables', 'ConvGen', c, 'bfs', seed, init='TabInit', next='CvTabs', conv=steps, view=None, invariants=['WF'], workers=8)


def settings(profile):
    def jobs(tier, seed, rnd):
        c = dict(NV=3, NHidden=3, Profile=profile, MaxLen=210, MaxCells=60, Depth=30, Random=True, MaxN=q(tier, 4, 5))
        yield Job('random ' + profile, 'SettingsGen', c, 'sim', seed, num=q(tier, 6000, 40000), depth=100, init='CInit', next='CNext', invariants=['WF'])
        if rnd == 0:
            if profile == 'config':
                yield Job('all short ini texts', 'SettingsGen', c, 'bfs', seed, init='IniInit', next='IniAll', conv=steps, view=None, invariants=['WF'], workers=8)
            else:
                yield Job('all short command lines', 'SettingsGen', c, 'bfs', seed, init='OptInit', next='OptAll', conv=steps, view=None, invariants=['WF'], workers=8)
            yield Job('in the model', 'SettingsGen', c, 'sim', seed + 1, num=200, depth=60, init='CInit', next='CNext', invariants=['WF', 'Wins'])
    return jobs


def xml(tier, seed, rnd):
    c = dict(NV=3, Profile='plain', MaxLen=200, MaxCells=90, Depth=25, Random=True, MaxN=q(tier, 4, 5))
    yield Job('random documents', 'XmlGen', c, 'sim', seed, num=q(tier, 3600, 24000), depth=80, next='XNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all documents of few pieces', 'XmlGen', c, 'bfs', seed, init='XInit', next='XAll', conv=steps, view=None, invariants=['WF'], workers=8)
        yield Job('in the model', 'XmlGen', c, 'sim', seed + 1, num=200, depth=60, next='XNext', invariants=['WF', 'Means'])


def paths(tier, seed, rnd):
    c = dict(NV=3, Profile='plain', MaxLen=200, MaxCells=260, Depth=30, Random=True, MaxN=q(tier, 1, 2))
    yield Job('random file systems', 'PathsGen', c, 'sim', seed, num=q(tier, 4000, 24000), depth=120, init='XStart', next='XNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all small file systems', 'PathsGen', c, 'bfs', seed, init='XInit', next='XAll', conv=steps, view=None, invariants=['WF'], workers=8)
        yield Job('in the model', 'PathsGen', c, 'sim', seed + 1, num=300, depth=120, init='XStart', next='XNext', invariants=['WF', 'FsOk'])


def modules(tier, seed, rnd):
    c = dict(NV=3, Profile='plain', MaxLen=10, MaxCells=60, Depth=30, Random=True, NHidden=3, NI=5, MaxN=q(tier, 5, 6))
    yield Job('random histories', 'ModulesGen', c, 'sim', seed, num=q(tier, 4800, 30000), depth=80, init='MInit', next='XNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all short histories', 'ModulesGen', c, 'bfs', seed, init='XInit', next='XAll', conv=steps, view=None, invariants=['WF'], workers=8)
        yield Job('in the model', 'ModulesGen', c, 'sim', seed + 1, num=300, depth=80, init='MInit', next='XNext', invariants=['WF', 'Lives', 'Held'])


def media(tier, seed, rnd):
    c = dict(NV=3, Profile='plain', MaxLen=210, MaxCells=60, Depth=30, Random=True, NHidden=3, MaxN=q(tier, 3, 5))
    yield Job('random files', 'MediaGen', c, 'sim', seed, num=q(tier, 4800, 30000), depth=120, init='MInit', next='XNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all samples, small shapes and graphs', 'MediaGen', c, 'bfs', seed, init='XInit', next='XAll', conv=steps, view=None, invariants=['WF'], workers=8)
        yield Job('in the model', 'MediaGen', c, 'sim', seed + 1, num=200, depth=100, init='MInit', next='XNext', invariants=['WF', 'Kept'])


def gedcom(tier, seed, rnd):
    c = dict(NV=3, Profile='plain', MaxLen=200, MaxCells=200, Depth=30, Random=True, MaxN=q(tier, 4, 5))
    yield Job('random files', 'GedcomGen', c, 'sim', seed, num=q(tier, 2000, 16000), depth=120, init='XStart', next='XNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all files of few lines', 'GedcomGen', c, 'bfs', seed, init='XInit', next='XAll', conv=steps, view=None, invariants=['WF'], workers=8)
        yield Job('in the model', 'GedcomGen', c, 'sim', seed + 1, num=24, depth=40, init='XStart', next='XNext', invariants=['WF', 'Whole'])


def plots(tier, seed, rnd):
    c = dict(NV=3, Profile='plain', MaxLen=210, MaxCells=90, Depth=30, Random=True, MaxN=q(tier, 4, 7))
    yield Job('random plots', 'PlotGen', c, 'sim', seed, num=q(tier, 2400, 16000), depth=90, init='XStart', next='XNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all small shapes', 'PlotGen', c, 'bfs', seed, init='XInit', next='XAll', conv=steps, view=None, invariants=['WF'], workers=8)


def fetches(tier, seed, rnd):
    c = dict(NV=3, Profile='plain', MaxLen=130, MaxCells=60, Depth=40, Random=True, MaxN=q(tier, 6, 16))
    yield Job('random transfers', 'FetchGen', c, 'sim', seed, num=q(tier, 1600, 12000), depth=100, init='XStart', next='XNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all sizes near blocks', 'FetchGen', c, 'bfs', seed, init='XInit', next='XAll', conv=steps, view=None, invariants=['WF'], workers=8)


def prints(tier, seed, rnd):
    c = dict(NV=3, Profile='plain', MaxLen=60, MaxCells=40, Depth=30, Random=True, MaxN=q(tier, 4, 6))
    yield Job('random values', 'PrintGen', c, 'sim', seed, num=q(tier, 6000, 40000), depth=80, next='WNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all types and small shapes', 'PrintGen', c, 'bfs', seed, init='WInit', next='WAll', conv=steps, view=None, invariants=['WF'], workers=8)


def functors(tier, seed, rnd):
    c = dict(NV=3, Profile='plain', MaxLen=60, MaxCells=30, Depth=30, Random=True, MaxN=q(tier, 4, 8))
    yield Job('random functors', 'FunctorsGen', c, 'sim', seed, num=q(tier, 6000, 40000), depth=90, next='GNext', invariants=['WF'])
    if rnd == 0:
        yield Job('all shapes', 'FunctorsGen', c, 'bfs', seed, init='GInit', next='GAll', conv=steps, view=None, invariants=['WF'], workers=8)


ASSUME = ['reals are multiples of a quarter that floating point represents exactly',
          'the replayer observes through the public API only (values, types, identity of storage, live blocks of operator new)']

PROPS = {
    'C01': dict(jobs=store('share', 9000, 4, 5), assumptions=ASSUME),
    'C02': dict(jobs=store('life', 9000, 3, 4), assumptions=ASSUME),
    'C03': dict(jobs=store('seq', 12000, 4, 5), assumptions=ASSUME),
    'C04': dict(jobs=store('elem', 12000, 3, 4), assumptions=ASSUME),
    'C05': dict(jobs=store('map', 9000, 3, 4), assumptions=ASSUME),
    'C06': dict(jobs=store('view', 12000, 4, 5), assumptions=ASSUME),
    'C07': dict(jobs=order, assumptions=ASSUME, spec='Values, OrderGen, Store'),
    'C08': dict(jobs=sorting, assumptions=ASSUME, spec='Values, SortGen, Store'),
    'C10': dict(jobs=json_('write'), assumptions=ASSUME, spec='JsonText, JsonGen, Store'),
    'C11': dict(jobs=json_('read'), assumptions=ASSUME, spec='JsonText, JsonGen, Store'),
    'C12': dict(jobs=stream, assumptions=ASSUME, spec='Stream, Store'),
    'C13': dict(jobs=strfun, assumptions=ASSUME, spec='StrFun, Text, Store'),
    'C14': dict(jobs=lines, assumptions=ASSUME, spec='Lines, JsonText, Store', targets=('txt',)),
    'C15': dict(jobs=arith, assumptions=ASSUME, spec='Arith, ArithGen, Store'),
    'C09': dict(jobs=conversions, assumptions=ASSUME, spec='Conv, ConvGen, Tables, Values, Arith, Store'),
    'C16': dict(jobs=linear, assumptions=ASSUME, spec='Linear, LinearGen, Arith, Store'),
    'C17': dict(jobs=transforms, assumptions=ASSUME, spec='Transform, TransformGen, Linear, Store'),
    'C18': dict(jobs=settings('config'), assumptions=ASSUME, spec='Settings, SettingsGen, Conv, Store', targets=('ini',)),
    'C19': dict(jobs=settings('option'), assumptions=ASSUME, spec='Settings, SettingsGen, Conv, Store', targets=('ini',)),
    'C20': dict(jobs=xml, assumptions=ASSUME, spec='Xml, XmlGen, Store', targets=('xml',)),
    'C21': dict(jobs=paths, assumptions=ASSUME, spec='Paths, PathsGen, Store', targets=('path',)),
    'C22': dict(jobs=modules, assumptions=ASSUME, spec='Modules, ModulesGen, Store', probes=('pa', 'pb', 'pk', 'pn', 'pg')),
    'C23': dict(jobs=media, assumptions=ASSUME, spec='Media, MediaGen, Store', targets=('snd', 'graph')),
    'C25': dict(jobs=gedcom, assumptions=ASSUME, spec='Gedcom, GedcomGen, Store', targets=('ged',)),
    'C26': dict(jobs=plots, assumptions=ASSUME + ['a stand-in for gnuplot, found by PATH, receives what is sent'], spec='Plot, PlotGen, JsonText, Store', targets=('gnuplot',)),
    'C27': dict(jobs=fetches, assumptions=ASSUME + ['libcurl reports what it was told to transfer'], spec='Fetch, FetchGen, Store', targets=('curl',)),
    'C28': dict(jobs=prints, assumptions=ASSUME, spec='Print, PrintGen, Store', targets=('ini',)),
    'C29': dict(jobs=functors, assumptions=ASSUME, spec='Functors, FunctorsGen, Arith, Store'),
    'C24': dict(jobs=ranges, assumptions=ASSUME, spec='Range, RangeGen, Store'),
}


def everything():
    t, p = set(), set()
    for s in PROPS.values():
        t.update(s.get('targets', ()))
        p.update(s.get('probes', ()))
    return sorted(t), sorted(p)

NOT_APPLICABLE = {}
