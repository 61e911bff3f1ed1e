"""C11: random sources. C12: statistics of diffuse surfaces. C14: cavities."""
import math
import scene as S
import session as SS
import oracle as O
import seams
from linalg import *
from common import *
from optical import *

KS = 3.0        # sqrt(n)*D beyond this: probability 3e-8 by chance
CHI = 75.       # 15 degrees of freedom: below 1e-9 by chance


def ks_uniform(us):
    us = sorted(us)
    n = len(us)
    d = 0.
    for i, u in enumerate(us):
        d = max(d, abs(u - i/float(n)), abs((i + 1)/float(n) - u))
    return d*math.sqrt(n)


def chi_pair(a, b):
    n = len(a)
    c = [[0]*4 for _ in range(4)]
    for x, y in zip(a, b):
        c[min(3, max(0, int(x*4)))][min(3, max(0, int(y*4)))] += 1
    e = n/16.
    return sum((v - e)**2/e for r in c for v in r)


def judge_uniform(ctx, cls, named, what):
    names = sorted(named)
    for k in names:
        v = ks_uniform(named[k])
        if v > KS:
            ctx.violate(cls, '%s: %s is not distributed as promised (Kolmogorov distance %.2f/sqrt(n), n=%d)' % (
                what, k, v, len(named[k])))
            return
        if len(set(named[k])) < 0.98*len(named[k]):
            ctx.violate(cls, '%s: %s repeats values' % (what, k))
            return
        c = chi_pair(named[k][:-1], named[k][1:])
        if c > CHI:
            ctx.violate(cls, '%s: %s of successive rays is dependent (chi2 %.0f)' % (what, k, c))
            return
    for i, k in enumerate(names):
        for q in names[i + 1:]:
            c = chi_pair(named[k], named[q])
            if c > CHI:
                ctx.violate(cls, '%s: %s and %s are dependent (chi2 %.0f)' % (what, k, q, c))
                return


def basis(z, ref=None):
    """Two unit vectors perpendicular to z."""
    ref = ref or ((1., 0., 0.) if abs(z[0]) < 0.6 else (0., 1., 0.))
    x = unit(cross(ref, z))
    return x, cross(z, x)


def azimuth(v, x, y):
    return (math.atan2(dot(v, y), dot(v, x))/(2*math.pi)) % 1.


# ------------------------------------------------------------------- C11

AXES = [(0., 0., 1.), (0., 0., -1.), (1., 0., 0.), (-1., 0., 0.), (0., 1., 0.), (0., -1., 0.)]


def gen_axis(rng):
    r = rng.random()
    if r < 0.25:
        return list(rng.choice(AXES))
    if r < 0.35:   # almost an axis
        a = rng.choice(AXES)
        e = rng.choice([1e-3, 1e-6, 1e-9])
        return list(unit(tuple(x + rng.uniform(-e, e) for x in a)))
    return list(unit((rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1))))


def gen_c11(rng, i, tier):
    case = {'ops': []}
    if i % 6 == 0:
        case['ops'].append({'op': 'stat', 'n': 4000, 'axis': gen_axis(rng), 'R': S.rnd(rng, 0.1, 5),
                            'ang': rng.choice([0.00465, 0.1, 1., math.pi/2]), 'c': [S.rnd(rng, -5, 5) for _ in range(3)],
                            'seed': rng.randrange(1 << 30), 'chunk': rng.choice([None, None, 1, 2, 6, 50])})
        if case['ops'][0]['chunk'] in (1, 2, 6):
            case['ops'][0]['n'] = 1500
        return case
    for _ in range(rng.choice([1, 2, 4])):
        op = {'op': rng.choice(['disk', 'disk', 'disk', 'square', 'pill']),
              'n': rng.choice([1, 2, 3, 5, 10, 37, 100, 7]), 'axis': gen_axis(rng),
              'c': [S.rnd(rng, -5, 5) for _ in range(3)], 'R': rng.choice([0.01, 1., S.rnd(rng, 0.1, 20)]),
              'ang': rng.choice([0.00465, 1e-6, 0.1, math.pi/2, S.rnd(rng, 0.001, 1.57)]),
              'flux': rng.choice([None, 1000., 0., S.rnd(rng, 0.1, 10)]),
              'mode': rng.choice(['real', 'extreme', 'extreme', 'const', 'low']),
              'seed': rng.randrange(1 << 30)}
        case['ops'].append(op)
    return case


def columns(a):
    return [tuple(float(x) for x in c) for c in a.T.tolist()]


def run_c11(ctx, case):
    env, N = ctx.env, ctx.env.N
    seam = seams.RandomSeam(N)
    for i, op in enumerate(case['ops']):
        what = 'op %d (%s)' % (i, op['op'])
        axis = tuple(op['axis'])
        ax = N.array(op['axis'])
        c = N.array([[x] for x in op['c']])
        if op['op'] == 'stat':
            stat_c11(ctx, op, axis, ax, c)
        else:
            seam.install(op['mode'], op['seed'])
            try:
                {'disk': disk, 'square': square, 'pill': pill}[op['op']](ctx, op, axis, ax, c, what, seam)
            finally:
                seam.remove()
            if seam.injected:
                ctx.fault('extreme random value', seam.injected)
                seam.injected = 0
        if ax.tolist() != op['axis'] or c.tolist() != [[x] for x in op['c']]:
            ctx.violate('C11:input', what + ': the caller\'s arrays changed')
        if ctx.violations:
            return
        ctx.event(what, op['n'])
        ctx.state(op['op'], op['n'], op.get('mode'), op['ang'], [round(x, 3) for x in op['axis']], op.get('flux'))


def deviation(d, axis):
    return math.atan2(norm(cross(d, axis)), dot(d, axis))


def disk(ctx, op, axis, ax, c, what, seam):
    env, N = ctx.env, ctx.env.N
    n, R = op['n'], op['R']
    kw = {} if op['flux'] is None else {'flux': op['flux']}
    b = env.sources.solar_disk_bundle(n, c, ax, R, op['ang'], **kw)
    v, d = columns(b.get_vertices()), columns(b.get_directions())
    if len(v) != n or len(d) != n or b.get_num_rays() != n:
        ctx.violate('C11:count', '%s: %d vertices, %d directions for %d rays' % (what, len(v), len(d), n))
        return
    tol = 1e-9*(1 + R + norm(op['c']))
    for j in range(n):
        p = sub(v[j], tuple(op['c']))
        if any(O.bad(x) for x in v[j] + d[j]):
            ctx.violate('C11:nan', '%s: ray %d is %r %r' % (what, j, v[j], d[j]))
            return
        if abs(dot(p, axis)) > tol:
            ctx.violate('C11:plane', '%s: ray %d starts %r off the disk\'s plane' % (what, j, dot(p, axis)))
            return
        if norm(p) > R + tol:
            ctx.violate('C11:radius', '%s: ray %d starts at %r from the centre, radius %r' % (what, j, norm(p), R))
            return
        if abs(norm(d[j]) - 1.) > 1e-9:
            ctx.violate('C11:unit', '%s: |direction %d| = %r' % (what, j, norm(d[j])))
            return
        if deviation(d[j], axis) > op['ang']*(1 + 1e-9) + 3e-8:
            ctx.violate('C11:angle', '%s: ray %d deviates by %r, at most %r' % (what, j, deviation(d[j], axis), op['ang']))
            return
    if op['flux'] is not None:
        e = b.get_energy().tolist()
        tot = op['flux']*math.pi*R*R
        if len(e) != n or abs(sum(e) - tot) > 1e-9*(1 + tot) or max(e) - min(e) > 1e-12*(1 + tot):
            ctx.violate('C11:energy', '%s: energies add to %r, flux times area is %r' % (what, sum(e), tot))
            return
    # the same seed, the same bundle
    seam.reseed(op['seed'])
    b1 = env.sources.solar_disk_bundle(n, c, ax, R, op['ang'], **kw)
    seam.reseed(op['seed'])
    b2 = env.sources.solar_disk_bundle(n, c, ax, R, op['ang'], **kw)
    if b1.get_vertices().tolist() != b2.get_vertices().tolist() or \
            b1.get_directions().tolist() != b2.get_directions().tolist():
        ctx.violate('C11:reproducible', '%s: two bundles of one seed differ' % what)
        return
    if op['mode'] == 'real':
        b3 = env.sources.solar_disk_bundle(n, c, ax, R, op['ang'], **kw)
        if b2.get_vertices().tolist() == b3.get_vertices().tolist() or (op['ang'] > 1e-3 and
                b2.get_directions().tolist() == b3.get_directions().tolist()):
            ctx.violate('C11:fresh', '%s: the next bundle repeats the last one' % what)
    ctx.probe('disk bundles')


def pill(ctx, op, axis, ax, c, what, seam):
    a = ctx.env.sources.pillbox_sunshape_directions(op['n'], op['ang'])
    d = columns(a)
    if len(d) != op['n']:
        ctx.violate('C11:count', '%s: %d directions for %d' % (what, len(d), op['n']))
        return
    for x in d:
        if abs(norm(x) - 1.) > 1e-9 or deviation(x, (0., 0., 1.)) > op['ang']*(1 + 1e-9) + 3e-8:
            ctx.violate('C11:angle', '%s: direction %r, at most %r from +Z' % (what, x, op['ang']))
            return
    ctx.probe('pillbox direction sets')


def square(ctx, op, axis, ax, c, what, seam):
    n, w = op['n'], op['R']
    b = ctx.env.sources.square_bundle(n, c, ax, w)
    v, d = columns(b.get_vertices()), columns(b.get_directions())
    if len(v) != len(d):
        ctx.violate('C11:count', '%s: %d directions for %d vertices' % (what, len(d), len(v)))
        return
    k = int(round(math.sqrt(len(v))))
    if k*k != len(v) or abs(k - math.sqrt(n)) > 1.0001:
        ctx.violate('C11:grid', '%s: %d rays for a square grid of about %d' % (what, len(v), n))
        return
    tol = 1e-9*(1 + w + norm(op['c']))
    for x in d:
        if max(abs(x[i] - axis[i]) for i in range(3)) > 1e-12:
            ctx.violate('C11:direction', '%s: direction %r, asked for %r' % (what, x, axis))
            return
    ps = [sub(x, tuple(op['c'])) for x in v]
    far = max(norm(p) for p in ps)
    if abs(far - w*math.sqrt(2)) > tol:
        ctx.violate('C11:grid', '%s: outermost point at %r from the centre, half-width %r' % (what, far, w))
        return
    for p in ps:
        if abs(dot(p, axis)) > tol:
            ctx.violate('C11:plane', '%s: a ray starts %r off the plane' % (what, dot(p, axis)))
            return
    if len(ps) > 1:
        step = 2.*w/math.sqrt(n)
        for i, p in enumerate(ps):
            near = min(dist(p, q) for j, q in enumerate(ps) if j != i)
            if abs(near - step) > tol:
                ctx.violate('C11:grid', '%s: neighbours %r apart, step is %r' % (what, near, step))
                return
    ctx.probe('square bundles')


def stat_c11(ctx, op, axis, ax, c):
    env, N = ctx.env, ctx.env.N
    N.random.seed(op['seed'])
    n, R = op['n'], op['R']
    vs, ds = [], []
    chunk = op.get('chunk') or n
    while len(vs) < n:
        b = env.sources.solar_disk_bundle(min(chunk, n - len(vs)), c, ax, R, op['ang'])
        vs += columns(b.get_vertices())
        ds += columns(b.get_directions())
    x, y = basis(axis)
    named = {'starting radius': [], 'starting azimuth': [], 'deviation': [], 'direction azimuth': []}
    s2 = math.sin(op['ang'])**2
    for p, d in zip(vs, ds):
        p = sub(p, tuple(op['c']))
        named['starting radius'].append(dot(p, p)/(R*R))
        named['starting azimuth'].append(azimuth(p, x, y))
        sp = sub(d, mul(axis, dot(d, axis)))
        named['deviation'].append(dot(sp, sp)/s2)
        named['direction azimuth'].append(azimuth(sp, x, y))
    judge_uniform(ctx, 'C11:distribution', named, 'solar disk' + (
        ' in bundles of %d' % chunk if chunk < n else ''))
    ctx.probe('samples judged statistically', n)


# ------------------------------------------------------------------- C12

def gen_c12_stat(rng):
    g = S.gen_geom(rng, ('flat', 'rect', 'round', 'tri', 'sphere', 'hemi', 'cut', 'dish', 'parab', 'fcyl', 'icyl', 'hex'))
    a = rng.choice([0., 0.1, 0.5])
    sc = {'n': 1.5, 'root': {'t': 'asm', 'T': S.gen_T(rng, 2.), 'via': 'st', 'kids': [
        {'t': 'obj', 'T': S.gen_T(rng, 2.), 'via': 'st',
         'surfs': [{'g': g, 'o': {'k': rng.choice(['lamb', 'lr']), 'a': a}, 'T': S.gen_T(rng, 2.), 'via': 'ctor'}]}]}}
    chunk = rng.choice([None]*5 + [1, 2, 20, 20])
    return {'stat': True, 'worlds': [sc], 'n': 450*chunk if chunk in (1, 2) else 1500, 'seed': rng.randrange(1 << 30),
            'side': rng.choice(['any', 'one']), 'chunk': chunk}


def run_c12_stat(ctx, case):
    env, N = ctx.env, ctx.env.N
    w = SS.World(env, case['worlds'][0])
    s = w.surfs()[0]
    rng = rng_for('stat%d' % case['seed'])
    rays = []
    fixed = None
    while len(rays) < case['n']:
        p = xform_pt(s.M, S.sample_local(rng, s.g))
        d = unit((rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1)))
        if case['side'] == 'one':
            fixed = fixed or (p, d)
            p, d = (p, d) if s.g['k'] in ('flat', 'rect', 'round', 'tri') else fixed
            if s.g['k'] in ('flat', 'rect', 'round', 'tri'):
                d = fixed[1]
        rays.append(list(along(p, d, -0.7)) + list(d) + [1., 1.])
    N.random.seed(case['seed'])
    eng = env.TracerEngine(w.node.real)
    dirs, out = [], []
    chunk = case.get('chunk') or len(rays)
    for again in range(2):
        dirs.append([])
        out.append([])
        for k in range(0, len(rays) if chunk == len(rays) or not again else 4*chunk, chunk):
            b = S.real_bundle(env, {'rays': rays[k:k + chunk]})
            eng.ray_tracer(b, 1, 0.)
            rep = O.Report()
            levels = O.levels_of(eng.tree)
            O.check_tree([s], levels, 1, 0., rep)
            take_report(ctx, rep, ['C12', 'C03:energy', 'C01'])
            if ctx.violations:
                return
            dirs[-1] += rep.diffuse
            if len(levels) > 1:
                out[-1] += levels[-1].d
    if sum(1 for x, y in zip(*out) if x == y) > 3:
        ctx.violate('C12:fresh', 'a second trace scatters into the same directions')
        return
    named = {'polar angle': [], 'azimuth': []}
    for lit, d, v in dirs[0]:
        c = dot(lit, d)
        x, y = basis(lit)
        named['polar angle'].append(1. - c*c)
        named['azimuth'].append(azimuth(d, x, y))
    if len(named['azimuth']) > 200:
        judge_uniform(ctx, 'C12:distribution', named, '%d rays scattered by %s%s' % (
            len(dirs[0]), s.g['k'], ', %d at a time' % chunk if chunk < len(rays) else ''))
        ctx.probe('samples judged statistically', len(dirs[0]))
    ctx.event('stat', s.g['k'], len(dirs[0]))
    ctx.state('stat', s.g['k'], case['side'], case.get('chunk'))


# ------------------------------------------------------------------- C14

def gen_c14_cavity(rng):
    """Closed cavities, practically unlimited bounces."""
    kind = rng.choice(['sphere', 'box', 'plates', 'glass'])
    a = rng.choice([0.25, 0.5, 0.5, 0.9, 0.1])
    ok = rng.choice(['refl', 'rr', 'lamb', 'lr'])
    o = {'k': ok, 'a': a}
    if kind == 'sphere':
        surfs = [{'g': {'k': 'sphere', 'R': S.rnd(rng, 1, 4)}, 'o': o}]
    elif kind == 'plates':
        surfs = [{'g': {'k': 'flat'}, 'o': o, 'T': {'p': [0, 0, -3.]}}, {'g': {'k': 'flat'}, 'o': o, 'T': {'p': [0, 0, 3.]}}]
    elif kind == 'glass':
        surfs = [{'g': {'k': 'sphere', 'R': 1.}, 'o': {'k': 'refr', 'n': 1.5}},
                 {'g': {'k': 'sphere', 'R': 3.}, 'o': {'k': 'refl', 'a': max(a, 0.5)}}]
    else:
        surfs = []
        for R, p in (('I', [0, 0, -2.]), ('I', [0, 0, 2.]), ('x90', [0, -2., 0]), ('x90', [0, 2., 0]),
                     ('y90', [-2., 0, 0]), ('y90', [2., 0, 0])):
            surfs.append({'g': {'k': 'rect', 'w': 4., 'h': 4.}, 'o': o, 'T': {'R': R, 'p': p}})
    for q in surfs:
        q.setdefault('T', None)
    sc = {'n': 1.5, 'root': {'t': 'asm', 'T': S.gen_T(rng, 1.), 'via': 'st', 'kids': [
        {'t': 'obj', 'T': None, 'via': 'st', 'surfs': surfs}]}}
    T = T4(sc['root']['T'])
    rays = []
    for _ in range(rng.choice([1, 3, 6])):
        if kind == 'glass':
            p = mul(unit((rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1))), 2.)
        else:
            p = tuple(rng.uniform(-.5, .5) for _ in range(3))
        d = unit((rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1)))
        if kind == 'plates' and abs(d[2]) < 0.3:
            d = unit((d[0], d[1], 0.8))
        rays.append(list(xform_pt(T, p)) + list(xform_dir(T, d)) + [rng.choice([1., 2., 4., 0.5]), 1.])
    e = rays[0][6]
    keep = 1 - (max(a, 0.5) if kind == 'glass' else a)
    k = rng.randint(1, 8)
    for _ in range(k):
        e = e*keep
    # exactly at, just below and just above an energy that will occur
    m = rng.choice([e, e, e*(1 + 2.**-52), e*(1 - 2.**-53), 0.05])
    if kind == 'glass':
        m = max(m, 0.02)
    return {'cavity': True, 'kind': kind, 'worlds': [sc], 'b': {'rays': rays}, 'min_e': m, 'keep': keep,
            'reps': rng.choice([10**9, 200000000, 10**6]), 'seed': rng.randrange(1 << 30),
            'rand': rng.choice(['real', 'real', 'extreme', 'const']),
            'fault': round(rng.random(), 3) if rng.random() < 0.3 else None}


def run_c14_cavity(ctx, case):
    env, N = ctx.env, ctx.env.N
    w = SS.World(env, case['worlds'][0])
    if not case['b']['rays']:
        raise S.Invalid('no rays')
    seam = seams.RandomSeam(N)
    seam.install(case['rand'], case['seed'])
    try:
        top = max(r[6] for r in case['b']['rays'])
        bound = 1
        e = top
        while e > case['min_e'] and bound < 3000:
            e *= case['keep']
            bound += 1
        if case['kind'] == 'glass':
            bound = bound*40 + 60
        budget = min((bound + 3)*15000, 4000000)
        eng = env.TracerEngine(w.node.real)

        def go():
            b = S.real_bundle(env, case['b'])
            return b, eng.ray_tracer(b, case['reps'], case['min_e'])
        if case['fault'] is not None:
            seam.reseed(case['seed'])
            seams.run_with_fault(ctx.lines, int(case['fault']*300), seams.SimInterrupt, go)
            ctx.fault('interrupt')
        seam.reseed(case['seed'])
        try:
            (b, ret), steps = seams.run_with_budget(ctx.lines, budget, go)
        except seams.StepBudget:
            ctx.violate('C14:endless', '%s: energy ratio allows %d bounces, still tracing after %d steps' % (
                case['kind'], bound, budget))
            return
        ctx.probe('simulated steps', steps)
        rep = O.Report()
        levels = O.levels_of(eng.tree)
        O.check_tree(w.surfs(), levels, case['reps'], case['min_e'], rep, ret)
        take_report(ctx, rep, ['C14', 'C01:missed'])
        if not ctx.violations and len(levels) - 1 > bound:
            ctx.violate('C14:bound', '%d bounces, the energy ratio allows %d' % (len(levels) - 1, bound))
        ctx.event('cavity', case['kind'], len(levels))
        ctx.state('cavity', case['kind'], len(levels), case['min_e'] , case['keep'])
        ctx.probe('cavity traces')
    finally:
        seam.remove()
        if seam.injected:
            ctx.fault('extreme random value', seam.injected)
