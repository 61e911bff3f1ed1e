"""
Metamorphic and history properties of traces:
  C05 companions and build order, C06 interruption, C07 concurrency.
"""
import copy
import json
import scene as S
import session as SS
import oracle as O
import seams
from linalg import *
from common import *
from optical import *


def bundle_of(b, idx):
    """The part of a bundle spec with the given rays, keeping their tags."""
    q = dict(b)
    q['rays'] = [b['rays'][i] for i in idx]
    q['uid'] = list(idx)
    return q


# ------------------------------------------------------------------- C05

def shuffled(spec, seed):
    """The same scene with kids and surfaces in another order."""
    rng = rng_for('order%d' % seed)
    spec = copy.deepcopy(spec)

    def go(n):
        for key in ('kids', 'surfs'):
            if n.get(key):
                rng.shuffle(n[key])
                for k in n[key]:
                    if isinstance(k, dict):
                        go(k)
    go(spec['root'])
    return spec


VARIANTS = ('split', 'split', 'perm', 'order', 'order', 'untree', 'used', 'conc', 'single', 'dup', 'moved')


def gen_c05(rng, i, tier):
    sc = S.gen_scene(rng, S.OPTS, S.GEOMS, S.MODELS, rng.choice([1, 2, 3, 4, 5]), rng.choice([0, 1, 2]))
    w = SS.World(S.NoEnv(), sc)
    b = gen_bundle(rng, w, rng.choice([2, 3, 5, 8, 14, 20]), sc['n'])
    case = {'world': sc, 'b': b, 'reps': rng.choice([1, 2, 2, 3, 4]),
            'min_e': rng.choice([0., 0., 0.0123, 0.123, 0.7]), 'ops': []}
    n = len(b['rays'])
    for _ in range(rng.choice([1, 2, 3])):
        v = {'v': rng.choice(VARIANTS), 'seed': rng.randrange(1 << 30)}
        idx = list(range(n))
        if v['v'] in ('split', 'conc'):
            rng.shuffle(idx)
            k = rng.randint(1, n - 1)
            v['cut'] = [idx[:k], idx[k:]]
            if v['v'] == 'conc':
                v['sched'] = gen_sched(rng, 2)
        elif v['v'] == 'single':
            v['cut'] = [[q] for q in idx]
        elif v['v'] == 'perm':
            rng.shuffle(idx)
            v['cut'] = [idx]
        elif v['v'] == 'dup':
            v['extra'] = gen_bundle(rng, w, rng.choice([1, 4, 30]), sc['n'])['rays']
            v['front'] = rng.random() < 0.5
        elif v['v'] == 'moved':
            w2 = SS.World(S.NoEnv(), sc)
            v['first'] = gen_bundle(rng, w2, rng.choice([1, 5, 9]), sc['n'])
            v['moves'] = []
            for _ in range(rng.choice([1, 1, 2])):
                v['moves'].append(gen_move(rng, 0, w2, sc, {}, 0.6))
                w2.move(v['moves'][-1])
            v['b'] = gen_bundle(rng, w2, rng.choice([2, 5, 9]), sc['n'])
            if rng.random() < 0.4:
                v['b'], v['same'] = v['first'], True
        elif v['v'] == 'used':
            v['first'] = gen_bundle(rng, w, rng.choice([1, 5, 9]), sc['n'])
            if rng.random() < 0.3:
                v['first'], v['same'] = case['b'], True
        case['ops'].append(v)
    return case


def family(levels):
    """uid -> node; node = (level, index, kids)"""
    kids = [[[] for _ in range(l.num)] for l in levels]
    for L in range(1, len(levels)):
        for j, p in enumerate(levels[L].par):
            kids[L - 1][int(p)].append(j)

    def node(L, i):
        l = levels[L]
        return (l.v[i], l.d[i], l.e[i], l.n[i] if l.n else None,
                [node(L + 1, j) for j in kids[L][i]] if L + 1 < len(levels) else [])
    return dict((levels[0].uid[i], node(0, i)) for i in range(levels[0].num))


def same_path(a, b, min_e, depth, tol, root=True):
    """None, or what differs"""
    if not (close(a[0], b[0], tol*(1 + norm(a[0]))) and close(a[1], b[1], tol)):
        return 'bounce %d: from %s along %s or from %s along %s' % (
            depth, O.fmt(a[0]), O.fmt(a[1]), O.fmt(b[0]), O.fmt(b[1]))
    if abs(a[2] - b[2]) > tol*(1 + abs(a[2])):
        return 'bounce %d: energy %r or %r' % (depth, a[2], b[2])
    if a[3] != b[3]:
        return 'bounce %d: index %r or %r' % (depth, a[3], b[3])
    if not root and min_e > 0 and abs(a[2] - min_e) < 1e-6*(min_e + 1e-6):
        return None
    if len(a[4]) != len(b[4]):
        return 'bounce %d at %s: %d or %d outgoing rays' % (depth + 1, O.fmt(a[0]), len(a[4]), len(b[4]))
    key = lambda k: (k[3] or 0, round(k[1][0], 4), round(k[1][1], 4), round(k[1][2], 4))
    left = list(b[4])
    for k in sorted(a[4], key=key):
        best = min(range(len(left)), key=lambda q: (left[q][3] != k[3], norm(sub(left[q][1], k[1]))))
        r = same_path(k, left.pop(best), min_e, depth + 1, tol*3, False)
        if r:
            return r
    return None


# -------------------------------------------------------- very many rays

def gen_crowd(rng):
    sc = S.gen_scene(rng, S.OPTS + ('rr', 'rr'), S.GEOMS, S.MODELS, rng.choice([1, 2, 3]), 1)
    w = SS.World(S.NoEnv(), sc)
    b = gen_bundle(rng, w, rng.choice([3, 5, 8]), sc['n'])
    b['rays'] = b['rays'][:8]
    return {'crowd': rng.choice([40, 150, 300, 1100, 4100, 10007, 33000, 66000])//len(b['rays']) + 1, 'world': sc, 'b': b,
            'reps': rng.choice([1, 2, 3]), 'min_e': rng.choice([0., 0.0123, 0.4]), 'seed': rng.randrange(1 << 30)}


def rows_of(N, b, base, uid):
    """One row for each ray: the few it copies, and all its data, in order."""
    cols = [base[uid].astype(float)] + list(b.get_vertices()) + list(b.get_directions()) + [b.get_energy()]
    try:
        cols.append(b.get_ref_index())
    except (KeyError, AttributeError):
        pass
    m = N.round(N.array(cols), 7) + 0.
    return m[:, N.lexsort(m[::-1])]


def run_crowd(ctx, case, accept):
    """Thousands of copies of a few rays do what the few do."""
    env, N = ctx.env, ctx.env.N
    few, copies = case['b'], case['crowd']
    n = len(few['rays'])
    if not n:
        raise S.Invalid('no rays')

    def trace(k, order):
        w = SS.World(env, case['world'])
        b = S.real_bundle(env, dict(few, uid=list(range(n)), nouid=False, int=False))
        if k > 1:
            b = b.inherit(order % n, uid=N.arange(n*k))
        eng = env.TracerEngine(w.node.real)
        eng.ray_tracer(b, case['reps'], case['min_e'])
        hits = [S.unwrap(om).get_all_hits() for om, q in w.receivers()]
        return eng.tree, hits, w

    def bad(cls, msg):
        if any(cls.startswith(a) for a in accept):
            ctx.violate(cls, 'among %d rays: %s' % (n*copies, msg))
    t1, h1, w1 = trace(1, None)
    rep = O.Report()
    O.check_tree(w1.surfs(), O.levels_of(t1), case['reps'], case['min_e'], rep)
    if rep.ambig or rep.issues:
        ctx.probe('crowds skipped')         # decided by rounding, or judged elsewhere
        ctx.event('crowd skipped')
        return
    order = N.arange(n*copies)
    N.random.RandomState(case['seed'] % (1 << 31)).shuffle(order)
    t2, h2, w2 = trace(copies, order)
    one, base = N.arange(n), order % n
    if t2.num_bunds() != t1.num_bunds():
        bad('C05:crowd', '%d bundles recorded, for the few alone %d' % (t2.num_bunds(), t1.num_bunds()))
        return
    for L in range(t1.num_bunds()):
        a = rows_of(N, t1[L], one, t1[L].get_uid().astype(int))
        b = rows_of(N, t2[L], base, t2[L].get_uid().astype(int))
        if b.shape[1] != copies*a.shape[1]:
            bad('C05:crowd', 'bounce %d has %d rays, expected %d' % (L, b.shape[1], copies*a.shape[1]))
            return
        if a.shape[1] and abs(N.repeat(a, copies, axis=1) - b).max() > 1e-5*(1 + abs(a).max()):
            bad('C05:crowd', 'rays of bounce %d differ from those of the few alone' % L)
            return
        if L:
            p = t2[L].get_parents().astype(int)
            if len(p) and (p.min() < 0 or p.max() >= t2[L - 1].get_num_rays() or
                           (t2[L - 1].get_uid()[p] != t2[L].get_uid()).any()):
                bad('C04:parent', 'bounce %d: parents lead to other rays' % L)
                return
    last = t2.num_bunds() - 1
    for i in sorted(set([0, t2[last].get_num_rays()//2, t2[last].get_num_rays() - 1])):
        if i < 0:
            continue
        hist = [int(q) for q in t2.ray_history(i)]
        want = [i]
        for L in range(last, 0, -1):
            want.append(int(t2[L].get_parents()[want[-1]]))
        if hist != want:
            bad('C04:history', 'history of ray %d is %r, its parents are %r' % (i, hist, want))
            return
    for (e1, p1), (e2, p2) in zip(h1, h2):
        if len(e2) != copies*len(e1) or p2.shape[1] != len(e2):
            bad('C09:count', 'a receiver has %d hits, expected %d' % (len(e2), copies*len(e1)))
            return
        if len(e1):
            a, b = [N.round(N.vstack((e[None,:], p)), 7) + 0. for e, p in ((e1, p1), (e2, p2))]
            a, b = a[:, N.lexsort(a[::-1])], b[:, N.lexsort(b[::-1])]
            if abs(N.repeat(a, copies, axis=1) - b).max() > 1e-5*(1 + abs(a).max()):
                bad('C09:pair', 'energies or points of a receiver differ from those of the few alone')
                return
    ctx.probe('crowds judged')
    ctx.probe('rays in crowds', n*copies)
    ctx.event('crowd', n*copies, t2.num_bunds())
    ctx.state('crowd', copies, t2.num_bunds())


def close(a, b, tol):
    return max(abs(a[0] - b[0]), abs(a[1] - b[1]), abs(a[2] - b[2])) <= tol


JUDGED = ['C01', 'C02', 'C03', 'C04']


def run_c05(ctx, case):
    env = ctx.env
    min_e, reps = case['min_e'], case['reps']

    def trace(world, b, eng=None, tree=True, rb=None):
        eng = eng or env.TracerEngine(world.node.real)
        rb = rb if rb is not None else S.real_bundle(env, b)
        ret = eng.ray_tracer(rb, reps, min_e, tree)
        return eng, rb, ret

    def judged(world, b, eng, rb, ret, what):
        rep = O.Report()
        levels = O.levels_of(eng.tree)
        O.check_tree(world.surfs(), levels, reps, min_e, rep, ret)
        take_report(ctx, rep, JUDGED, what + ': ')
        ctx.state(what.split()[-1], [(l.num, tuple(l.par or ())) for l in levels])
        if rep.issues:
            return None, set()
        return family(levels), rep.ambig_uids

    def hits(world):
        tot, n = {}, {}
        for q, (om, node) in enumerate(world.receivers()):
            e, p = S.unwrap(om).get_all_hits()
            key = node.name + repr(node.g) + repr(node.T)
            tot[key] = tot.get(key, 0.) + (float(e.sum()) if len(e) else 0.)
        return tot

    base = SS.World(env, case['world'])
    eng, rb, ret = trace(base, case['b'])
    want, amb = judged(base, case['b'], eng, rb, ret, 'base')
    if want is None:
        return
    base_hits = hits(base)
    ctx.event('base', len(want), len(amb))
    n = len(case['b']['rays'])
    for q, v in enumerate(case['ops']):
        what = 'variant %d %s' % (q, v['v'])
        got, amb2, extra_hits = {}, set(), False
        world = None
        if v['v'] in ('split', 'single', 'perm'):
            world = SS.World(env, case['world'])
            eng = env.TracerEngine(world.node.real)
            seen = sorted(x for part in v['cut'] for x in part)
            if seen != list(range(n)):
                raise S.Invalid('not a partition')
            for part in v['cut']:
                if not part:
                    continue
                sb = bundle_of(case['b'], part)
                e, rb, ret = trace(world, sb, eng)
                g, a = judged(world, sb, e, rb, ret, what)
                if g is None:
                    return
                got.update(g)
                amb2 |= a
        elif v['v'] == 'conc':
            worlds, engs, tasks, parts = [], [], [], []
            if sorted(x for part in v['cut'] for x in part) != list(range(n)):
                raise S.Invalid('not a partition')
            for part in v['cut']:
                sb = bundle_of(case['b'], part)
                wd = SS.World(env, case['world'])
                en = env.TracerEngine(wd.node.real)
                rb = S.real_bundle(env, sb)
                worlds.append(wd)
                parts.append((wd, sb, en, rb))
                tasks.append(lambda en=en, rb=rb: en.ray_tracer(rb, reps, min_e, True))
            sch = seams.Scheduler(ctx.lines, v['sched'])
            res = sch.run(tasks)
            ctx.fault('thread switch', len(sch.switches))
            for (wd, sb, en, rb), (st, val) in zip(parts, res):
                if st == 'exc':
                    raise val
                g, a = judged(wd, sb, en, rb, val, what)
                if g is None:
                    return
                got.update(g)
                amb2 |= a
            h = {}
            for wd in worlds:
                for k, x in hits(wd).items():
                    h[k] = h.get(k, 0.) + x
            vh = h
        elif v['v'] == 'order':
            world = SS.World(env, shuffled(case['world'], v['seed']))
            e, rb, ret = trace(world, case['b'])
            got, amb2 = judged(world, case['b'], e, rb, ret, what)
            if got is None:
                return
        elif v['v'] == 'dup':
            # the same rays among others
            world = SS.World(env, case['world'])
            rays = case['b']['rays']
            extra = v['extra']
            sb = dict(case['b'])
            sb['rays'] = extra + rays if v['front'] else rays + extra
            ex = list(range(n, n + len(extra)))
            sb['uid'] = ex + list(range(n)) if v['front'] else list(range(n)) + ex
            e, rb, ret = trace(world, sb)
            got, amb2 = judged(world, sb, e, rb, ret, what)
            if got is None:
                return
            got = dict((k, x) for k, x in got.items() if k < n)
            extra_hits = True
        elif v['v'] == 'used':
            world = SS.World(env, case['world'])
            eng = env.TracerEngine(world.node.real)
            e, rb, ret = trace(world, v['first'], eng)
            for om, node in world.receivers():
                S.unwrap(om).reset()
            e, rb, ret = trace(world, case['b'], eng, rb=rb if v.get('same') and v['first'] == case['b'] else None)
            got, amb2 = judged(world, case['b'], e, rb, ret, what)
            if got is None:
                return
        elif v['v'] == 'moved':
            # a scene traced, then changed, and one changed at once
            both = []
            for used in (False, True):
                world = SS.World(env, case['world'])
                eng = env.TracerEngine(world.node.real) if used else None
                rb = None
                if used:
                    e, rb, ret = trace(world, v['first'], eng)
                for op in v['moves']:
                    world.move(op)
                for om, node in world.receivers():
                    S.unwrap(om).reset()
                e, rb, ret = trace(world, v['b'], eng, rb=rb if v.get('same') and v['first'] == v['b'] else None)
                both.append(judged(world, v['b'], e, rb, ret, what))
                if both[-1][0] is None:
                    return
                both[-1] += (hits(world),)
            (wanted, a1, h1), (got, a2, h2) = both
            for u in sorted(wanted):
                r = u not in a1 | a2 and same_path(wanted[u], got[u], min_e, 0, 1e-7)
                if r:
                    ctx.violate('C05:path', '%s: source ray %d differs in %s' % (what, u, r))
                    return
            for k in h1:
                if not a1 | a2 and abs(h2.get(k, 0.) - h1[k]) > 1e-5*(1 + h1[k]):
                    ctx.violate('C05:absorbed', '%s: a receiver absorbed %r instead of %r' % (what, h2.get(k), h1[k]))
                    return
            ctx.probe('variant moved')
            ctx.event(what, len(a1 | a2))
            continue
        elif v['v'] == 'untree':
            world = SS.World(env, case['world'])
            e2, rb2, r2 = trace(world, case['b'], tree=False)
            a = sorted(zip(map(tuple, r2[0].T.tolist()), map(tuple, r2[1].T.tolist())))
            w2 = SS.World(env, case['world'])
            e, rb, r1 = trace(w2, case['b'])
            b = sorted(zip(map(tuple, r1[0].T.tolist()), map(tuple, r1[1].T.tolist())))
            if a != b:
                ctx.violate('C05:recording', '%s: recording changes the rays returned' % what)
                return
            got, amb2 = judged(w2, case['b'], e, rb, r1, what)
            if got is None:
                return
        if sorted(got) != sorted(want):
            ctx.violate('C05:rays', '%s: rays %r instead of %r' % (what, sorted(got), sorted(want)))
            return
        skip = amb | amb2
        ctx.probe('paths compared', n - len(skip))
        ctx.probe('paths skipped as ambiguous', len(skip))
        ctx.probe('variant ' + v['v'])
        for u in sorted(want):
            if u in skip:
                continue
            r = same_path(want[u], got[u], min_e, 0, 1e-7)
            if r:
                ctx.violate('C05:path', '%s: source ray %d differs in %s' % (what, u, r))
                return
        if not skip and not extra_hits:
            h = hits(world) if world is not None else vh
            for k in base_hits:
                if abs(h.get(k, 0.) - base_hits[k]) > 1e-5*(1 + base_hits[k]):
                    ctx.violate('C05:absorbed', '%s: a receiver absorbed %r instead of %r' % (what, h.get(k), base_hits[k]))
                    return
        ctx.event(what, len(skip))


# ------------------------------------------------------------------- C06

ERRS = ({}, {}, {'divide': 'warn', 'over': 'ignore', 'under': 'ignore', 'invalid': 'ignore'},
        {'divide': 'ignore', 'over': 'warn', 'under': 'warn', 'invalid': 'warn'})


def mark_usurf(rng, node, p):
    if node.get('t') == 'asm':
        for k in node['kids']:
            mark_usurf(rng, k, p)
    elif node.get('t') == 'obj':
        for q in node['surfs']:
            if rng.random() < p:
                q['usurf'] = True


def gen_c06(rng, i, tier):
    opts = S.OPTS + ('rr', 'lamb', 'lr') if rng.random() < 0.3 else S.OPTS + ('rr',)
    sc = S.gen_scene(rng, opts, S.GEOMS, S.MODELS, rng.choice([1, 2, 2, 3]), rng.choice([0, 1, 2]))
    mark_wraps(rng, sc['root'], 0.35)
    mark_usurf(rng, sc['root'], 0.25)
    w = SS.World(S.NoEnv(), sc)
    mix = {'reps': (1, 2, 2, 3), 'counts': (1, 3, 6, 10)}
    case = {'world': sc, 'ops': [], 'err': rng.choice(ERRS)}
    nodes = [n for p, n in w.node.walk() if n.kind == 'surf']
    nwrap = sum(1 for n in nodes if n.o.get('wrap'))
    plan = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        plan += rng.choice([['fault', 'trace'], ['fault', 'trace'], ['trace', 'fault', 'trace'],
                            ['fault', 'fault', 'trace'], ['fault', 'move', 'trace'], ['fault', 'move', 'trace'], ['move', 'fault', 'trace']])
    last = None
    for name in plan:
        if name == 'move':
            path, node = rng.choice(movable(w))
            op = {'op': 'move', 'path': path, 'T': S.gen_T(rng, 3.), 'via': rng.choice(['st', 'loc', 'rot'])}
            w.move(op)
        else:
            op = gen_trace(rng, 0, w, sc, mix)
            op['eng'] = rng.choice([0, 0, 0, 'new'])
            if last is not None and rng.random() < (0.7 if last['op'] == 'fault' else 0.5):
                op['b'], op['reps'], op['min_e'] = last['b'], last['reps'], last['min_e']
                op['same'] = rng.random() < 0.75
            last = op
            if name == 'fault':
                op['op'] = 'fault'
                kinds = ['interrupt', 'interrupt', 'memory']
                kinds += ['optics'] if nwrap else []
                kinds += ['surface']
                op['kind'] = rng.choice(kinds)
                op['tree'] = True
                if op['kind'] == 'optics':
                    op.update(opt=rng.randrange(nwrap), fuse=rng.randint(1, 3), late=rng.random() < 0.5)
                elif op['kind'] == 'surface':
                    op.update(opt=rng.randrange(8), fuse=rng.randint(1, 3),
                              meth=rng.choice(['register', 'select', 'outgoing', 'done']))
                else:
                    op.update(loc=round(rng.random(), 4), occ=round(rng.random(), 4))
        case['ops'].append(op)
    return case


def frames(world):
    """Everything a frame reports, exactly."""
    out = []
    pts = world.env.N.array([[0.3, -1.2], [0.7, 2.5], [1.9, -0.4]])
    for path, n in world.node.walk():
        out.append((path, n.real.get_transform().tolist(), n.real.get_location().tolist(),
                    n.real.get_rotation().tolist()))
        if n.kind == 'surf':
            out.append(n.real.global_to_local(pts).tolist())
    return out


def all_hits(world):
    out = []
    for om, n in world.receivers():
        e, p = S.unwrap(om).get_all_hits()
        out.append(list(zip(e.tolist(), [tuple(c) for c in p.T.tolist()])) if len(e) == p.shape[1]
                   else 'unpaired: %d energies, %d points' % (len(e), p.shape[1]))
    return out


def run_c06(ctx, case):
    env, N = ctx.env, ctx.env.N
    A = SS.World(env, case['world'])      # with interruptions
    B = SS.World(env, case['world'])      # without
    N.seterr(**case['err'])
    start_err = N.geterr()
    a_extra = [[] for _ in A.receivers()]
    traced = {}

    def source(w, op):
        """Maybe the very bundle that this session traced before."""
        old = traced.get(id(w))
        if not (op.get('same') and old is not None and old[0] == op['b']):
            old = traced[id(w)] = (op['b'], S.real_bundle(env, op['b']))
        return old[1]

    for i, op in enumerate(case['ops']):
        what = 'op %d' % i
        if op['op'] == 'move':
            A.move(op)
            B.move(op)
            continue
        if op['op'] == 'trace':
            res = []
            for w in (A, B):
                N.random.seed(op['seed'])
                rb = source(w, op)
                eng = w.engine(op['eng'])
                ret = eng.ray_tracer(rb, op['reps'], op['min_e'], op.get('tree', True))
                res.append((O.digest_levels(O.levels_of(eng.tree)), ret[0].tolist(), ret[1].tolist()))
            ctx.probe('traces compared with an undisturbed session')
            if res[0] != res[1]:
                ctx.violate('C06:result', '%s: the trace differs from that of a session without interruptions' % what)
                return
            ha, hb = all_hits(A), all_hits(B)
            for q in range(len(ha)):
                if isinstance(ha[q], str) or isinstance(hb[q], str):
                    ctx.violate('C06:receiver', '%s: receiver %d %s' % (what, q, ha[q]))
                    return
                if multi(ha[q]) != multi(hb[q] + a_extra[q]):
                    ctx.violate('C06:receiver', '%s: receiver %d holds %d hits, expected %d and %d left by interrupted traces' % (
                        what, q, len(ha[q]), len(hb[q]), len(a_extra[q])))
                    return
            if N.geterr() != start_err:
                ctx.violate('C06:errstate', '%s: numpy error handling %r became %r' % (what, start_err, N.geterr()))
                return
            ctx.event('trace', [len(l[0]) for l in res[0][0]])
            ctx.state('tree', [(len(l[0]), l[4]) for l in res[0][0]])
            continue
        # an interrupted trace
        C = A.twin()                 # what it would have done
        N.random.seed(op['seed'])
        rb = S.real_bundle(env, op['b'])
        engC = C.engine(0)
        before_c = all_hits(C)
        go = lambda: engC.ray_tracer(rb, op['reps'], op['min_e'], True)
        inst = None
        if op['kind'] in seams.FAULTS:
            _, log = seams.record_lines(ctx.lines, go)
            inst = seams.pick_instant(log, op['loc'], op['occ'])
            if inst is None:
                raise S.Invalid('nothing to interrupt')
        else:
            go()
        full = all_hits(C)
        before, f0 = all_hits(A), frames(A)
        rb = source(A, op)
        src0 = O.digest_levels([O.Level(rb, 0)])
        eng = A.engine(op['eng'])
        N.random.seed(op['seed'])
        go = lambda: eng.ray_tracer(rb, op['reps'], op['min_e'], True)
        if inst is not None:
            out, _ = seams.run_with_fault(ctx.lines, inst, seams.FAULTS[op['kind']], go)
            if out == 'fault':
                ctx.fault(op['kind'])
                ctx.state('fault', seams.short(log[inst], ctx.root), op['kind'])
            what += ' interrupted at %s' % seams.short(log[inst], ctx.root)
        else:
            if op['kind'] == 'optics':
                opts = A.optics()
                if not opts:
                    raise S.Invalid('no user optics')
                t = opts[op['opt'] % len(opts)]
                t.fuse, t.late = op['fuse'], op['late']
            else:
                us = [n.real for p, n in A.node.walk() if n.kind == 'surf' and hasattr(n.real, 'fuse')]
                if not us:
                    continue
                t = us[op['opt'] % len(us)]
                t.fuse = [op['meth'], op['fuse']]
            try:
                go()
            except seams.UserFault:
                ctx.fault('user %s raised' % op['kind'])
                ctx.state('user', op['kind'], op.get('meth'), op['fuse'])
            t.fuse = None
            what += ' failed in user %s' % op['kind']
        ctx.event(what)
        if O.digest_levels([O.Level(rb, 0)]) != src0:
            ctx.violate('C06:source', what + ': the source bundle changed')
            return
        if frames(A) != f0:
            ctx.violate('C06:frames', what + ': a frame changed')
            return
        if N.geterr() != start_err:
            ctx.violate('C06:errstate', '%s: numpy error handling %r became %r' % (what, start_err, N.geterr()))
            return
        after = all_hits(A)
        for q in range(len(after)):
            if isinstance(after[q], str):
                ctx.violate('C06:receiver', '%s: receiver %d %s' % (what, q, after[q]))
                return
            left = minus(after[q], before[q])
            new = minus(full[q], before_c[q])
            if left is None or minus(new, left) is None:
                ctx.violate('C06:receiver', '%s: receiver %d holds hits that no trace made' % (what, q))
                return
            a_extra[q] += left


def multi(xs):
    d = {}
    for x in xs:
        k = repr(x)
        d[k] = d.get(k, 0) + 1
    return d


def minus(big, small):
    """Multiset difference as a list; None if small is not inside big."""
    d = multi(small)
    out = []
    for x in big:
        k = repr(x)
        if d.get(k):
            d[k] -= 1
        else:
            out.append(x)
    if any(d.values()):
        return None
    return out


# ------------------------------------------------------------------- C07

def gen_c07(rng, i, tier):
    mode = rng.choices(['visits', 'sites', 'burst'], [5, 2, 4])[0]
    nt = 2 if mode == 'visits' else rng.choice([2, 2, 3])
    same = rng.random() < (0.7 if mode == 'visits' else 0.4)
    specs = []
    base = None
    for k in range(nt):
        if same and base is not None:
            specs.append(base)
        else:
            base = S.gen_scene(rng, S.OPTS + ('rr',), S.GEOMS, S.MODELS, rng.choice([1, 2]) if mode == 'visits' else rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 2]), media=0.)
            mark_wraps(rng, base['root'], 0.15)
            specs.append(base)
    if rng.random() < 0.4:
        # give the scenes a common receiver (or common mirror)
        sh = rng.choice([{'k': 'rr', 'a': 0.5, 'share': 'Rs'}, {'k': 'refl', 'a': 0.25, 'share': 'Ms'},
                         {'k': 'refr', 'n': 1.5, 'share': 'Gs'}])
        for sp in specs:
            share_into(rng, sp['root'], sh)
    case = {'worlds': specs, 'tasks': [], 'sched': gen_sched(rng, nt), 'shared_bundle': None,
            'late_build': rng.random() < 0.3, 'nested': rng.random() < 0.25}
    worlds = [SS.World(S.NoEnv(), sp) for sp in specs]
    if rng.random() < 0.3:
        case['shared_bundle'] = gen_bundle(rng, worlds[0], rng.choice([2, 6, 12]), specs[0]['n'])
    for k in range(nt):
        script = []
        for _ in range(1 if mode == 'visits' and k else rng.choice([1, 1, 2])):
            if rng.random() < 0.25:
                path, node = rng.choice(movable(worlds[k]))
                op = {'op': 'move', 'path': path, 'T': S.gen_T(rng, 3.), 'via': rng.choice(['st', 'loc', 'rot'])}
                worlds[k].move(op)
                script.append(op)
            op = gen_trace(rng, 0, worlds[k], specs[k], {'reps': (1, 2, 3), 'counts': (1, 3, 8)})
            op['eng'] = 0
            script.append(op)
        case['tasks'].append({'script': script})
    if rng.random() < 0.25:
        case['abort'] = {'task': rng.randrange(nt), 'opt': rng.randrange(6), 'fuse': rng.randint(1, 3)}
    frac = lambda: [round(rng.random(), 4), round(rng.random(), 4)]
    if mode == 'visits':
        # task 0 is held at chosen lines, and a whole other trace runs there
        case['visits'] = [frac() for _ in range(rng.choice([6, 20, 50]))]
        case['abort'] = None
        case['nested'] = False
    elif mode == 'sites':
        # each task in turn runs up to a chosen line
        case['sites'] = [[rng.randrange(nt)] + frac() for _ in range(rng.choice([2, 3, 5, 8]))]
        case['nested'] = False
    return case


def aimed_schedule(case, logs):
    """A schedule of switches at chosen source lines, not at chosen times."""
    plan = {}
    for t, a, b in case['sites']:
        if t < len(logs) and logs[t]:
            plan.setdefault(t, []).append(seams.pick_instant(logs[t], a, b))
    for t in plan:
        plan[t].sort(reverse=True)
    sched, done = [], {}
    for t, a, b in case['sites']:
        if plan.get(t):
            x = plan[t].pop()
            if x > done.get(t, 0):
                sched.append([t, x - done.get(t, 0)])
                done[t] = x
    return sched


def share_into(rng, node, sh):
    if node.get('t') == 'asm':
        for k in node['kids']:
            share_into(rng, k, sh)
    elif node.get('t') == 'obj':
        for q in node['surfs']:
            if rng.random() < 0.5:
                q['o'] = dict(sh)


def run_script(env, world, script, shared, out, collect=None):
    for op in script:
        if op['op'] == 'move':
            world.move(op)
            continue
        rb = shared if shared is not None else S.real_bundle(env, op['b'])
        eng = world.engine(0)
        ret = eng.ray_tracer(rb, op['reps'], op['min_e'], op.get('tree', True))
        out.append((O.digest_levels(O.levels_of(eng.tree)), ret[0].tolist(), ret[1].tolist()))


def gather(worlds):
    seen, hits = set(), []
    for w in worlds:
        for om, n in w.receivers():
            om = S.unwrap(om)
            if id(om) in seen:
                continue
            seen.add(id(om))
            e, p = om.get_all_hits()
            if len(e) != p.shape[1]:
                return None
            hits += list(zip(e.tolist(), [tuple(c) for c in p.T.tolist()]))
    return hits


def run_c07(ctx, case):
    env, N = ctx.env, ctx.env.N
    nt = len(case['tasks'])
    if nt < 1 or len(case['worlds']) < nt:
        raise S.Invalid('worlds')
    visits = case.get('visits')
    aimed = visits or case.get('sites')
    late = case.get('late_build')
    if visits:
        nt = min(nt, 2)
        late = False
        if nt < 2:
            raise S.Invalid('tasks')
    logs = []
    shared_rb = S.real_bundle(env, case['shared_bundle']) if case.get('shared_bundle') else None
    # alone
    want, alone_hits = [], []
    for k in range(nt):
        out, ws = [], []
        rb = S.real_bundle(env, case['shared_bundle']) if shared_rb is not None else None
        if not late:
            ws.append(SS.World(env, case['worlds'][k], {}))

        def alone():
            if late:
                ws.append(SS.World(env, case['worlds'][k], {}))
            run_script(env, ws[0], case['tasks'][k]['script'], rb, out)
        if aimed:
            logs.append(seams.record_lines(ctx.lines, alone)[1])
        else:
            alone()
        w = ws[0]
        want.append(out)
        h = gather([w])
        if h is None:
            ctx.violate('C07:unpaired', 'a receiver of task %d has unpaired hits when run alone' % k)
            return
        alone_hits.append(h)
    err0 = N.geterr()
    # together
    if case.get('sites'):
        case = dict(case, sched=aimed_schedule(case, logs))
    shared = {}
    abort = case.get('abort')
    worlds = [None]*nt

    def make(k):
        worlds[k] = SS.World(env, case['worlds'][k], shared)
        if abort and abort['task'] == k:
            o = worlds[k].optics()
            if o:
                o[abort['opt'] % len(o)].fuse = abort['fuse']
    if not late:
        for k in range(nt):
            make(k)
    got = [[] for _ in range(nt)]

    def task(k):
        def go():
            if late:
                make(k)
            run_script(env, worlds[k], case['tasks'][k]['script'], shared_rb, got[k])
            return N.geterr()
        return go
    aborted = None
    if visits:
        at = sorted(set(seams.pick_instant(logs[0], a, b) for a, b in visits)) if logs[0] else []
        vis = seams.Visits(ctx.lines, at, task(1))
        res = [('ok', vis.run(task(0)))]
        res += vis.results[:1] or [('ok', err0)]
        res += [r for r in vis.results if r[0] == 'exc'][:1]
        nt = len(res)
        ctx.fault('thread switch', 2*len(vis.results))
        ctx.state('visits', [seams.short(w, ctx.root) for w in vis.where])
        ctx.event('run', vis.steps, len(vis.results))
        ctx.probe('scheduled lines', vis.steps)
        want[1] = want[1]*len(vis.results)
        alone_hits[1] = alone_hits[1]*len(vis.results)
    elif case.get('nested') and nt >= 2 and not late:
        # the last task runs inside a user callback of the first
        opts = worlds[0].optics()
        inner = []
        if opts and not abort:
            def hook():
                ctx.fault('re-entrant trace')
                inner.append(1)
                task(nt - 1)()
            opts[0].hook = hook
            res = [('ok', task(k)()) for k in range(nt - 1)]
            opts[0].hook = None
            if not inner:
                task(nt - 1)()
            res.append(('ok', N.geterr()))
        else:
            res = [('ok', err0)]*nt
            for k in range(nt):
                try:
                    task(k)()
                except seams.UserFault:
                    aborted = k
    else:
        sch = seams.Scheduler(ctx.lines, case['sched'])
        res = sch.run([task(k) for k in range(nt)])
        ctx.fault('thread switch', len(sch.switches))
        ctx.state('switches', [(t, seams.short((f, l), ctx.root)) for t, f, l in sch.switches])
        ctx.event('run', sch.steps, len(sch.switches))
        ctx.probe('scheduled lines', sch.steps)
    for k in range(nt):
        st, val = res[k]
        if st == 'exc':
            if isinstance(val, seams.UserFault):
                aborted = k
                ctx.fault('user callable raised')
                continue
            raise val
        if val != err0:
            ctx.violate('C07:errstate', 'task %d ends with numpy error handling %r' % (k, val))
            return
    nt = len(want)
    for k in range(nt):
        g, w = got[k], want[k]
        if k == aborted:
            g, w = g[:len(g)], w[:len(g)]
        if g != w:
            ctx.violate('C07:result', 'task %d of %d: trace differs from the same trace run alone' % (k, nt))
            return
        ctx.probe('traces compared with themselves alone', len(g))
    total = gather(worlds)
    if total is None:
        ctx.violate('C07:unpaired', 'a receiver has unpaired hits')
        return
    expect = [h for k in range(nt) if k != aborted for h in alone_hits[k]]
    rest = minus(total, expect)
    if rest is None or (aborted is None and rest):
        ctx.violate('C07:receiver', 'receivers hold %d hits after the traces ran together, %d alone' % (len(total), len(expect)))
        return
    if aborted is not None and minus(alone_hits[aborted], rest) is None:
        ctx.violate('C07:receiver', 'receivers hold hits that no trace made')
        return
    for k in range(nt):
        ctx.state('tree', k, [[len(l[0]) for l in t[0]] for t in got[k]])
    ctx.event('done', aborted, len(total))
