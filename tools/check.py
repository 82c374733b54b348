#!/usr/bin/env python3
"""check.py <ID>: decide one property.  VERIF_SEED and VERIF_TIER as usual.
check.py replay <file>: run one recorded counterexample again.
check.py setup: build everything once."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
from vt import log, CheckError, Prog

KNOWN = os.path.join(vt.VERIF, 'known-findings.txt')


def known(pid):
    """Recorded, unrepaired defects: (text, program) of this property."""
    r = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith('finding: property=%s ' % pid):
                text, prog = line.rstrip('\n').split(' :: ')
                r.append((text[len('finding: property=%s ' % pid):], json.loads(prog)))
    return r


def main(pid):
    import jobs
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'runs': []}
    found = []      # confirmed (program, difference)
    flaky = 0
    spec = jobs.PROPS[pid]
    vt.build(spec.get('targets', ()), spec.get('probes', ()))
    deadline = t0 + (640 if tier == 'thorough' else 1e9)
    rnd = 0
    while True:
        for job in spec['jobs'](tier, seed + 7919 * rnd, rnd):
            if rnd and time.time() > deadline: break
            res, progs = job.generate()
            if not progs: raise CheckError('%s generated no program' % job.name)
            bad, n = vt.replay(progs, env=job.env(), cwd=job.cwd())
            log(job.name, 'states', res.distinct, 'transitions', res.states, 'programs', n, 'differ', len(bad))
            cov['states'] += res.distinct
            cov['transitions'] += res.states
            cov['traces_validated_against_impl'] += n
            cov['runs'].append({'what': job.name, 'tlc': res.cmd, 'states': res.distinct, 'transitions': res.states,
                                'programs': n, 'steps': sum(len(p.steps) for p in progs),
                                'throws_expected': sum(1 for p in progs for s in p.steps if s[1] == 'throw')})
            if len(cov['samples']) < 4:
                p = progs[len(progs) // 2]
                cov['samples'].append({'run': job.name, 'program': [s[0] for s in p.steps], 'status': p.steps[-1][1],
                                       'result': p.steps[-1][2]})
            for p, d in bad:
                c = vt.confirm(p, env=job.env(), cwd=job.cwd()) or vt.confirm_batch(p, env=job.env(), cwd=job.cwd())
                if c: found.append((job, p, c))
                else: flaky += 1
                if len(found) >= 3: break
            if found: break
        rnd += 1
        if found or tier != 'thorough' or time.time() > deadline: break
    kf = []
    for text, prog in known(pid):
        kf.append(text)
        print('KNOWN-FINDING: property=%s %s' % (pid, text), flush=True)
    for f in found:
        print('differs:', json.dumps(f[2])[:1500])
    if flaky: log('differences that did not repeat:', flaky)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(found)}
    os.makedirs(os.path.join(vt.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(vt.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if found:
        job, p, d = found[0]
        path = os.path.join(vt.WORK, 'replay', '%s.json' % pid)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'run': job.name, 'difference': d, 'nv': p.nv, 'quiet': p.quiet, 'steps': p.steps}, f)
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        return 1
    log('%s held on everything explored: %d states, %d programs replayed' % (pid, cov['states'], cov['traces_validated_against_impl']))
    return 0


def replay(path):
    j = json.load(open(path))
    import jobs
    spec = jobs.PROPS[j['property']]
    vt.build(spec.get('targets', ()), spec.get('probes', ()))
    p = Prog([tuple(s) for s in j['steps']], j['quiet'], j['nv'])
    job = next(iter(spec['jobs']('quick', 1, 0)))
    d = vt.confirm(p, env=job.env(), cwd=job.cwd())
    print(json.dumps(d, indent=1))
    return 1 if d else 0


if __name__ == '__main__':
    try:
        if sys.argv[1] == 'setup':
            import jobs
            vt.build(*jobs.everything())
            sys.exit(0)
        sys.exit(replay(sys.argv[2]) if sys.argv[1] == 'replay' else main(sys.argv[1]))
    except CheckError as e:
        print('check error:', e, flush=True)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
