#!/usr/bin/env python3
"""
check.py PROP [quick|thorough]     decide one property on /repo's current tree
check.py --replay FILE             rerun one recorded violation
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venvpp/bin/python'
TRANSLATE = ['/usr/bin/python3', '/opt/vp/py3/translate.py']
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
sys.path.insert(0, HERE)
import plan


class Trouble(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1',
             OMP_NUM_THREADS='1', MPLBACKEND='Agg')
    e.pop('PYTHONPATH', None)
    if os.environ.get('VERIF_HASHSEED'):
        e['PYTHONHASHSEED'] = os.environ['VERIF_HASHSEED']
    return e


def make_tree(work):
    """Copy the working tree's package and translate it as the build does."""
    src, dest = os.path.join(work, 'src'), os.path.join(work, 'tree')
    os.makedirs(src)
    shutil.copytree(os.path.join(REPO, 'tracer'), os.path.join(src, 'tracer'),
                    ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
    p = subprocess.run(TRANSLATE + [src, dest], env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if p.returncode or not os.path.isdir(os.path.join(dest, 'tracer')):
        raise Trouble('translation failed: ' + p.stdout.decode('utf-8', 'replace')[-2000:])
    return dest


def start(work, tree, name, job):
    jf, rf = os.path.join(work, name + '.job'), os.path.join(work, name + '.out')
    with open(jf, 'w') as f:
        json.dump(job, f)
    log = open(os.path.join(work, name + '.log'), 'wb')
    p = subprocess.Popen([PYPY, '--jit', 'off', os.path.join(HERE, 'sim', 'worker.py'), tree, jf, rf],
                         env=env(), stdout=log, stderr=subprocess.STDOUT, cwd=work)
    return p, rf, log


def finish(h, timeout):
    p, rf, log = h
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise Trouble('a simulation worker did not end')
    finally:
        log.close()
    if not os.path.exists(rf):
        with open(log.name, 'rb') as f:
            raise Trouble('a simulation worker failed: ' + f.read()[-3000:].decode('utf-8', 'replace'))
    with open(rf) as f:
        return json.load(f)


def merge(outs):
    r = {'runs': 0, 'violations': [], 'faults': {}, 'probes': {}, 'states': set(), 'events': 0,
         'samples': [], 'rerun': 0, 'rerun_bad': 0, 'invalid': 0, 'cpu': 0.}
    for o in outs:
        for k in ('runs', 'events', 'rerun', 'rerun_bad', 'invalid'):
            r[k] += o[k]
        r['cpu'] += o['seconds']
        r['violations'] += o['violations']
        r['samples'] += o['samples']
        r['states'] |= set(o['states'])
        for name in ('faults', 'probes'):
            for k, n in o[name].items():
                r[name][k] = r[name].get(k, 0) + n
    r['violations'].sort(key=lambda v: v['run'])
    return r


def write_evidence(prop, tier, seed, r, wall, nviol, digest, known):
    P = plan.PLAN[prop]
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': r['runs'],
            'distinct_nontrivial': len(r['states']),
            'rule': P['rule'],
            'samples': r['samples'][:3],
            'simulated_runs_per_hour': int(r['runs']*3600/max(wall, 1e-3)),
            'seeds': '%d/%s/0..%d' % (seed, prop, r['runs'] - 1),
            'seeds_per_hour': int(r['runs']*3600/max(wall, 1e-3)),
            'simulated_time': {'events': r['events'], 'note': 'the system has no clock; simulated time is counted in '
                               'session events, ray steps and scheduled source lines'},
            'faults_injected': r['faults'],
            'counters': r['probes'],
            'runs_repeated_for_determinism': r['rerun'],
            'repetitions_that_differed': r['rerun_bad'],
            'run_digest': digest,
            'real_components': P['real'],
            'stubbed_components': P['stub'],
            'known_findings_seen': known,
        },
        'wall_s': round(wall, 2),
        'assumptions': P['assume'],
        'violations': nviol,
    }
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')


def report(prop, seed, v, work, tree, seconds):
    """Minimise, write the replay file, make sure it reproduces exactly."""
    best = {'case': v['case'], 'cls': v['cls'], 'msg': v['msg']}
    try:
        if v['cls'] == 'hang':
            raise Trouble('shrinking a hang takes too long')
        h = start(work, tree, 'shrink%d' % v['run'],
                  {'cmd': 'shrink', 'prop': prop, 'case': v['case'], 'cls': v['cls'], 'seconds': seconds})
        s = finish(h, seconds + 400)
        hit = [x for x in s['violations'] if x['cls'] == v['cls']]
        if hit:
            best = {'case': s['case'], 'cls': v['cls'], 'msg': hit[0]['msg'], 'digest': s['digest'], 'events': s['events']}
    except Trouble:
        pass
    reps = []
    for k in range(2):
        try:
            o = finish(start(work, tree, 'again%d_%d' % (v['run'], k),
                             {'cmd': 'replay', 'prop': prop, 'case': best['case']}), 400)
            reps.append((o['digest'], [x['cls'] for x in o['violations']]))
            best['digest'], best['events'] = o['digest'], o['events']
        except Trouble:
            reps.append(None)
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.json' % (prop, seed, v['run']))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'class': best['cls'], 'message': best['msg'],
                   'seed': '%d/%s/%d' % (seed, prop, v['run']), 'case': best['case'],
                   'event_digest': best.get('digest'), 'events': best.get('events'),
                   'reproduced_exactly': len(reps) == 2 and reps[0] == reps[1] and reps[0] is not None
                   and best['cls'] in reps[0][1],
                   'how': 'python3 %s --replay %s' % (os.path.join(HERE, 'check.py'), path)}, f, indent=1)
        f.write('\n')
    print('%s %s' % (best['cls'], best['msg']))
    print('VIOLATION property=%s replay=%s' % (prop, path))


def check(prop, tier):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = plan.PLAN[prop]
    n = int(os.environ.get('VERIF_RUNS', '0')) or P['runs' if tier == 'quick' else 'thorough']
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    t0 = time.time()
    try:
        tree = make_tree(work)
        hs = []
        try:
            for k in range(WORKERS):
                hs.append(start(work, tree, 'w%d' % k, {
                    'cmd': 'runs', 'prop': prop, 'seed': seed, 'lo': k, 'hi': n, 'step': WORKERS,
                    'tier': tier, 'deadline': P.get('deadline', 480) if tier == 'quick' else 6*3600}))
            outs = [finish(h, 600 if tier == 'quick' else 8*3600) for h in hs]
        finally:
            for h in hs:
                if h[0].poll() is None:
                    h[0].kill()
                    h[0].wait()
        r = merge(outs)
        known = []
        for v in r['violations']:
            k = plan.known(prop, v)
            if k:
                known.append(k)
        for k in sorted(set(known)):
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        bad = [v for v in r['violations'] if not plan.known(prop, v)]
        wall = time.time() - t0
        write_evidence(prop, tier, seed, r, wall, len(bad), [o['digest'] for o in outs], sorted(set(known)))
        print('%s %s: %d simulated runs, %d distinct states, %d faults, %.1f s' % (
            prop, tier, r['runs'], len(r['states']), sum(r['faults'].values()), wall))
        if r['invalid']:
            print('note: %d invalid cases' % r['invalid'])
        if r['rerun_bad']:
            print('note: %d repeated runs differed' % r['rerun_bad'])
        if not bad:
            return 0
        seen = set()
        for v in bad:
            if v['cls'] in seen or len(seen) >= 2:
                continue
            seen.add(v['cls'])
            report(prop, seed, v, work, tree, 40 if tier == 'quick' else 120)
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        tree = make_tree(work)
        o = finish(start(work, tree, 'replay', {'cmd': 'replay', 'prop': rec['property'], 'case': rec['case']}), 400)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for e in o['events']:
        print('  ' + e[:200])
    for v in o['violations']:
        print('%s %s' % (v['cls'], v['msg']))
    print('event digest %s (recorded %s)' % (o['digest'], rec.get('event_digest')))
    if any(v['cls'] == rec['class'] for v in o['violations']):
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    print('not reproduced on the current tree')
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == '--replay':
            return replay(a[1])
        return check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    except Trouble as e:
        print('check could not run: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
