"""
Runs simulated cases in one process. Driven by check.py with a JSON job:
  {"cmd": "runs",   "prop":, "seed":, "lo":, "hi":, "step":, "tier":}
  {"cmd": "replay", "prop":, "case":}
  {"cmd": "shrink", "prop":, "case":, "cls":, "seconds":}
The tree under test is argv[1], the job file argv[2], the result file argv[3].
"""
import json
import os
import signal
import sys
import time
import traceback

ROOT = os.path.abspath(sys.argv[1])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(1, ROOT)
sys.setrecursionlimit(5000)

import warnings
warnings.simplefilter('ignore')

import common
import profiles
import scene
import seams
import shrink


class Hang(BaseException):
    pass


def on_alarm(sig, frame):
    raise Hang()


CASE_SECONDS = 60


def run_case(ctx, prof, case):
    """-> list of Violation; harness faults raise"""
    ctx.reset()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_SECONDS)
    try:
        prof.run(ctx, case)
    except scene.Invalid:
        ctx.violations = []
        ctx.invalid = True
    except Hang:
        ctx.violate('hang', 'no end after %d s' % CASE_SECONDS)
    except (Exception, KeyboardInterrupt) as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        spots = ['%s:%d %s' % (os.path.basename(f[0]), f[1], f[2]) for f in tb[-4:]]
        ctx.violate('crash:' + type(e).__name__, '%s: %s at %s' % (type(e).__name__, e, ' < '.join(reversed(spots))))
    finally:
        signal.alarm(0)
        ctx.cleanup()
    return ctx.violations


def make_case(prof, job, i):
    rng = common.rng_for('%s/%s/%d' % (job['seed'], job['prop'], i))
    case = prof.gen(rng, i, job.get('tier', 'quick'))
    return json.loads(json.dumps(case))


def runs(job):
    prof = profiles.PROFILES[job['prop']]
    ctx = common.Ctx(scene.Env(), ROOT)
    out = {'runs': 0, 'violations': [], 'faults': {}, 'probes': {}, 'states': set(),
           'events': 0, 'samples': [], 'rerun': 0, 'rerun_bad': 0, 'invalid': 0, 'digest': ''}
    t0 = time.time()
    chain = ''
    for i in range(job['lo'], job['hi'], job['step']):
        if job.get('deadline') and time.time() - t0 > job['deadline']:
            break
        case = make_case(prof, job, i)
        ctx.invalid = False
        v = run_case(ctx, prof, case)
        out['runs'] += 1
        out['invalid'] += bool(ctx.invalid)
        out['events'] += len(ctx.events)
        h = common.h64('\n'.join(ctx.events))
        chain = common.h64(chain + h)
        for name in ('faults', 'probes'):
            for k, n in getattr(ctx, name).items():
                out[name][k] = out[name].get(k, 0) + n
        out['states'] |= ctx.states
        if len(out['samples']) < 2 and not v:
            out['samples'].append({'run': i, 'events': [e[:160] for e in ctx.events[:6]]})
        if v:
            out['violations'].append({'run': i, 'cls': v[0].cls, 'msg': v[0].msg, 'case': case})
            if len(out['violations']) >= 2:
                break
        elif i % 101 == job['lo'] % 101 or i % 37 == 5:
            run_case(ctx, prof, case)
            out['rerun'] += 1
            if common.h64('\n'.join(ctx.events)) != h:
                out['rerun_bad'] += 1
    out['states'] = sorted(out['states'])
    out['digest'] = chain
    out['seconds'] = time.time() - t0
    return out


def replay(job):
    prof = profiles.PROFILES[job['prop']]
    ctx = common.Ctx(scene.Env(), ROOT)
    ctx.invalid = False
    v = run_case(ctx, prof, job['case'])
    return {'violations': [{'cls': x.cls, 'msg': x.msg} for x in v], 'events': ctx.events,
            'digest': common.h64('\n'.join(ctx.events))}


def do_shrink(job):
    prof = profiles.PROFILES[job['prop']]
    ctx = common.Ctx(scene.Env(), ROOT)

    def fails(case):
        ctx.invalid = False
        try:
            return any(x.cls == job['cls'] for x in run_case(ctx, prof, case))
        except Exception:
            return False
    case, tried = shrink.minimise(job['case'], fails, job['seconds'])
    r = replay(dict(job, case=case))
    r['case'], r['tried'] = case, tried
    return r


def main():
    with open(sys.argv[2]) as f:
        job = json.load(f)
    r = {'runs': runs, 'replay': replay, 'shrink': do_shrink}[job['cmd']](job)
    tmp = sys.argv[3] + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(r, f)
    os.rename(tmp, sys.argv[3])


main()
