"""C16: bundle operations against a list-of-records model."""
import scene as S
import session as SS
import oracle as O
import seams
from common import *
from optical import *

STD = {'vertices': (3,), 'directions': (3,), 'energy': (), 'parents': (), 'ref_index': ()}
USER = {'wl': (), 'tag': (), 'pol': (2,), 'jones': (2, 2), 'deep': (2, 1, 3), 'one': (1,)}
DIMS = dict(STD, **USER)
WHOLE = ('parents', 'tag')
COMPLEX = ('jones',)


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


class Values(object):
    """Fresh, distinct property values."""
    def __init__(self, seed):
        self.rng = rng_for('values%s' % seed)
        self.k = 0

    def make(self, name, n, whole=False):
        out = []
        for _ in range(n):
            self.k += 1
            if name in WHOLE:
                out.append([self.k])
            elif whole:
                out.append([self.k*7 + q for q in range(size(DIMS[name]))])
            elif name in COMPLEX:
                out.append([self.k + 1j*self.rng.random() for _ in range(size(DIMS[name]))])
            else:
                out.append([self.k + self.rng.random() for _ in range(size(DIMS[name]))])
        return out


def to_array(N, name, vals):
    """vals: per ray flat lists -> array of shape DIMS + (n,)"""
    flat = [x for v in vals for x in v]
    kind = int if name in WHOLE or (flat and isinstance(flat[0], int)) else complex if name in COMPLEX else float
    a = N.array(vals, dtype=kind).reshape((len(vals), size(DIMS[name])))
    return N.ascontiguousarray(a.T).reshape(DIMS[name] + (len(vals),))


def from_array(a):
    n = a.shape[-1]
    return [list(r) for r in a.reshape((-1, n)).T.tolist()] if a.size else [[] for _ in range(n)]


class Model(object):
    def __init__(self, n, props):
        self.n, self.props = n, props
        self.alias = False       # stands on arrays of another bundle

    def take(self, idx):
        return Model(len(idx), dict((k, [v[i] for i in idx]) for k, v in self.props.items()))


def selector(N, spec, n):
    """-> (real selector, list of indices)"""
    kind, seed = spec
    rng = rng_for('sel%s' % seed)
    if kind == 'none':
        return None, list(range(n))
    if kind == 'slice':
        a, b, c = rng.choice([None, 0, 1, n//2]), rng.choice([None, n, n - 1, max(0, n//2)]), rng.choice([None, 1, 2, -1])
        if c == -1:
            a, b = None, None
        s = slice(a, b, c)
        return s, list(range(n))[s]
    if kind == 'mask':
        m = [rng.random() < 0.5 for _ in range(n)]
        return N.array(m, dtype=bool), [i for i in range(n) if m[i]]
    if kind == 'all':
        return N.ones(n, dtype=bool), list(range(n))
    if kind == 'empty':
        return N.array([], dtype=int), []
    if not n:
        return N.array([], dtype=int), []
    if kind == 'repeat':
        idx = [rng.randrange(n) for _ in range(rng.randint(1, n + 2))]
    elif kind == 'perm':
        idx = list(range(n))
        rng.shuffle(idx)
    else:
        idx = sorted(rng.sample(range(n), rng.randint(0, n)))
    if kind == 'list':
        return [int(i) for i in idx], idx
    return N.array(idx, dtype=int), idx


SELS = ('slice', 'mask', 'all', 'empty', 'repeat', 'perm', 'idx', 'idx', 'list')


def gen_sel(rng, kinds=SELS):
    return [rng.choice(kinds), rng.randrange(1 << 20)]


def gen_op(rng):
    k = rng.choice(['new', 'new', 'inherit', 'inherit', 'inherit', 'add', 'add', 'concat', 'delete', 'delete',
                    'set', 'setsel', 'getsel', 'has', 'empty'])
    op = {'op': k, 'a': rng.randrange(8), 'b': rng.randrange(8)}
    if k == 'new':
        op['n'] = rng.choice([0, 1, 2, 3, 5, 8])
        op['props'] = sorted(rng.sample(sorted(DIMS), rng.randint(0, len(DIMS))))
        op['how'] = rng.choice(['ctor', 'ctor', 'set'])
        op['like'] = rng.random() < 0.5
        if rng.random() < 0.3:
            op['whole'] = sorted(rng.sample(sorted(DIMS), rng.randint(1, len(DIMS))))
        if rng.random() < 0.2:
            op['twin'] = True
    elif k == 'inherit':
        op['sel'] = gen_sel(rng, SELS + ('none',))
        op['over'] = sorted(rng.sample(sorted(DIMS), rng.choice([0, 0, 1, 2, 4])))
    elif k == 'concat':
        op['many'] = [rng.randrange(8) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
    elif k in ('delete', 'getsel', 'setsel'):
        op['sel'] = gen_sel(rng, ('empty', 'repeat', 'idx', 'list', 'idx') if k == 'delete' else SELS)
        op['p'] = rng.choice(sorted(DIMS))
    elif k in ('set', 'has'):
        op['p'] = rng.choice(sorted(DIMS))
        if rng.random() < 0.2:
            op['whole'] = True
    r = rng.random()
    if r < 0.1:
        op['fault'] = [round(rng.random(), 4), rng.choice(['interrupt', 'memory'])]
    return op


def gen_c16(rng, i, tier):
    if i % 3 == 2:
        return gen_c16_trace(rng)
    case = {'seed': rng.randrange(1 << 30), 'ops': [gen_op(rng) for _ in range(rng.choice([3, 6, 12, 25]))]}
    case['ops'].insert(0, {'op': 'new', 'n': 4, 'props': sorted(rng.sample(sorted(DIMS), 7)), 'how': 'ctor', 'a': 0, 'b': 0})
    if rng.random() < 0.3:
        case['conc'] = {'parts': [[gen_op(rng) for _ in range(4)] for _ in range(2)], 'sched': gen_sched(rng, 2)}
        for q in case['conc']['parts']:
            for op in q:
                op.pop('fault', None)
    return case


class Bench(object):
    def __init__(self, ctx, case):
        self.ctx, self.env, self.N = ctx, ctx.env, ctx.env.N
        self.vals = Values(case['seed'])
        self.items = []         # (real bundle, Model)

    def pick(self, k):
        return self.items[k % len(self.items)]

    def prepare(self, op, items=None):
        """
        -> (function on the real bundles, commit(result)) or None. All values
        and selectors are made beforehand, so that the function can be repeated.
        """
        N, env = self.N, self.env
        items = items if items is not None else self.items
        k = op['op']
        if k == 'empty':
            return env.RayBundle.empty_bund, lambda r: items.append((r, Model(0, dict((p, []) for p in STD))))
        if k == 'new':
            n = op['n']
            names = set(op['props']) | set(['vertices', 'directions'])
            if op.get('like') and items:
                names = set(items[op['a'] % len(items)][1].props) | set(['vertices', 'directions'])
            vals = dict((p, self.vals.make(p, n, p in op.get('whole', ()))) for p in sorted(names))
            m = Model(n, vals)
            if op.get('twin'):
                m2 = Model(n, dict(vals))
                m.alias = m2.alias = True

                def two():
                    arrs = dict((p, to_array(N, p, vals[p])) for p in sorted(vals))
                    return env.RayBundle(**arrs), env.RayBundle(**arrs)
                return two, lambda r: items.extend([(r[0], m), (r[1], m2)])

            def new():
                arrs = dict((p, to_array(N, p, vals[p])) for p in sorted(vals))
                if op['how'] == 'ctor':
                    return env.RayBundle(**arrs)
                user = dict((p, v) for p, v in arrs.items() if p in USER)
                b = env.RayBundle(**user)
                for p in arrs:
                    if p in STD:
                        getattr(b, 'set_' + p)(arrs[p])
                return b
            return new, lambda r: items.append((r, m))
        if not items:
            return None
        real, mod = items[op['a'] % len(items)]
        if k == 'inherit':
            sel, idx = selector(N, op['sel'], mod.n)
            m = mod.take(idx)
            over = {}
            for p in op['over']:
                over[p] = self.vals.make(p, len(idx))
                m.props[p] = over[p]

            def inherit():
                kw = dict(('direction' if p == 'directions' else p, to_array(N, p, v)) for p, v in over.items())
                return real.inherit(**kw) if sel is None else real.inherit(sel, **kw)
            return inherit, lambda r: items.append((r, m))
        if k == 'add':
            real2, mod2 = items[op['b'] % len(items)]
            common = [p for p in mod.props if p in mod2.props]
            m = Model(mod.n + mod2.n, dict((p, mod.props[p] + mod2.props[p]) for p in common))
            return (lambda: real + real2), lambda r: items.append((r, m))
        if k == 'concat':
            picks = [items[q % len(items)] for q in op['many']]
            if picks:
                names = set(picks[0][1].props)
                picks = [p for p in picks if set(p[1].props) == names]
                m = Model(sum(p[1].n for p in picks),
                          dict((q, [v for p in picks for v in p[1].props[q]]) for q in names))
            else:
                m = Model(0, dict((p, []) for p in STD))
            return (lambda: env.concatenate_rays([p[0] for p in picks])), lambda r: items.append((r, m))
        if k == 'delete':
            sel, idx = selector(N, op['sel'], mod.n)
            gone = set(idx)
            m = mod.take([i for i in range(mod.n) if i not in gone])
            return (lambda: real.delete_rays(sel)), lambda r: items.append((r, m))
        p = op.get('p')
        if k == 'has':
            def has(r):
                want = p in STD or p in mod.props
                if want and not r:
                    self.ctx.violate('C16:has', 'has_property(%r) is %r' % (p, r))
            return (lambda: real.has_property(p)), has
        if p not in mod.props:
            return None
        if k == 'getsel':
            sel, idx = selector(N, op['sel'], mod.n)
            want = [mod.props[p][i] for i in idx]

            def got(r):
                if r.shape != DIMS[p] + (len(idx),) or from_array(r) != want:
                    self.ctx.violate('C16:get', '%s of rays %r is %r, expected %r' % (p, idx, r.tolist(), want))
            return (lambda: getattr(real, 'get_' + p)(sel)), got
        if k == 'set':
            v = self.vals.make(p, mod.n, bool(op.get('whole')))
            return (lambda: getattr(real, 'set_' + p)(to_array(N, p, v))), lambda r: mod.props.__setitem__(p, v)
        if k == 'setsel':
            sel, idx = selector(N, op['sel'], mod.n)
            if len(set(idx)) < len(idx) or mod.alias:
                return None
            # values that fit the array there
            v = self.vals.make(p, len(idx), getattr(real, 'get_' + p)().dtype.kind in 'iu')
            if p in COMPLEX and getattr(real, 'get_' + p)().dtype.kind != 'c':
                return None

            def commit(r):
                new = list(mod.props[p])
                for i, x in zip(idx, v):
                    new[i] = x
                mod.props[p] = new
            return (lambda: getattr(real, 'set_' + p)(to_array(N, p, v), sel)), commit

    def judge(self, what):
        for i, (real, mod) in enumerate(self.items):
            if real.get_num_rays() != mod.n:
                self.ctx.violate('C16:count', '%s: bundle %d has %d rays, expected %d' % (what, i, real.get_num_rays(), mod.n))
                return
            for p in sorted(mod.props):
                try:
                    a = getattr(real, 'get_' + p)()
                except (AttributeError, KeyError):
                    self.ctx.violate('C16:lost', '%s: bundle %d lost the property %s' % (what, i, p))
                    return
                if a.shape != DIMS[p] + (mod.n,):
                    self.ctx.violate('C16:shape', '%s: %s of bundle %d has shape %r for %d rays' % (what, p, i, a.shape, mod.n))
                    return
                if from_array(a) != mod.props[p] and mod.n:
                    self.ctx.violate('C16:values', '%s: %s of bundle %d is %r, expected %r' % (
                        what, p, i, from_array(a)[:4], mod.props[p][:4]))
                    return
            self.ctx.probe('bundles compared')

    def step(self, op, what):
        pr = self.prepare(op)
        if pr is None:
            return
        fn, commit = pr
        if op.get('fault') and op['op'] not in ('set', 'setsel'):
            _, log = seams.record_lines(self.ctx.lines, fn)
            at = int(op['fault'][0]*len(log))
            if log:
                out, _ = seams.run_with_fault(self.ctx.lines, at, seams.FAULTS[op['fault'][1]], fn)
                if out == 'fault':
                    self.ctx.fault(op['fault'][1])
                    self.ctx.state('fault at', seams.short(log[at], self.ctx.root))
                self.judge(what + ', cut short')
                if self.ctx.violations:
                    return
        commit(fn())
        self.judge(what)
        self.ctx.event(what, len(self.items), self.items[-1][1].n)
        self.ctx.state(op['op'], op.get('sel', [0])[0], self.items[-1][1].n, sorted(self.items[-1][1].props), op.get('over'))


def run_c16(ctx, case):
    if case.get('trace'):
        return run_c16_trace(ctx, case)
    w = Bench(ctx, case)
    for i, op in enumerate(case['ops']):
        w.step(op, 'op %d (%s)' % (i, op['op']))
        if ctx.violations:
            return
        while len(w.items) > 8:
            del w.items[0]
    if case.get('conc') and w.items:
        # Two threads work on the same bundles, without changing those.
        jobs = []
        for t in (0, 1):
            todo = []
            for op in case['conc']['parts'][t]:
                if op['op'] in ('set', 'setsel'):
                    continue
                tmp = list(w.items)
                pr = w.prepare(op, tmp)
                if pr is not None and op['op'] in ('inherit', 'add', 'concat', 'delete', 'new'):
                    todo.append((tmp, pr))
            jobs.append(todo)

        def work(t):
            return [pr[0]() for tmp, pr in jobs[t]]
        sch = seams.Scheduler(ctx.lines, case['conc']['sched'])
        res = sch.run([lambda: work(0), lambda: work(1)])
        ctx.fault('thread switch', len(sch.switches))
        for t in (0, 1):
            if res[t][0] == 'exc':
                raise res[t][1]
            for (tmp, pr), r in zip(jobs[t], res[t][1]):
                pr[1](r)
                w.items.append(tmp[-1])
        w.judge('after two threads')
        ctx.event('conc', sch.steps)


# -------------------------------------------------- properties through a trace

def gen_c16_trace(rng):
    sc = S.gen_scene(rng, S.OPTS + ('refr', 'refr'), S.GEOMS, S.MODELS, rng.choice([1, 2, 3]), rng.choice([0, 1, 2]), 4.)
    w = SS.World(S.NoEnv(), sc)
    mark_wraps(rng, sc['root'], 0.2)
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        op = gen_trace(rng, 0, w, sc, {'reps': (1, 2, 3, 4, 5), 'counts': (1, 3, 6, 12), 'untree': 0.})
        op['b'].pop('noref', None)
        op['props'] = sorted(rng.sample(sorted(USER), rng.randint(1, 4)))
        if rng.random() < 0.3:
            op['fault'] = [round(rng.random(), 4), rng.choice(['interrupt', 'memory'])]
        op['only'] = rng.random() < 0.2
        ops.append(op)
    return {'trace': True, 'worlds': [sc], 'ops': ops}


def code(p, uid):
    """The value of property p of the ray with this number."""
    if p in WHOLE:
        return [uid*10 + 3]
    return [uid + 0.25*k + 1e-3*len(p) for k in range(size(DIMS[p]))]


def run_c16_trace(ctx, case):
    env, N = ctx.env, ctx.env.N
    w = SS.World(env, case['worlds'][0])
    seam = seams.RandomSeam(N)
    seam.install('real', 1)
    for i, op in enumerate(case['ops']):
        what = 'op %d (trace)' % i
        b0 = S.real_bundle(env, op['b'])
        n = b0.get_num_rays()
        kw = dict((p, to_array(N, p, [code(p, u) for u in range(n)])) for p in op['props'])
        b = env.RayBundle(b0.get_vertices(), b0.get_directions(), energy=b0.get_energy(),
                          ref_index=b0.get_ref_index(), uid=N.arange(n), **kw)
        eng = w.engine(op['eng'])
        seam.reseed(op['seed'])

        def go():
            return eng.ray_tracer(b, op['reps'], op['min_e'], not op['only'])
        if op.get('fault'):
            tw = w.twin()
            e2 = tw.engine('new')
            _, log = seams.record_lines(ctx.lines, lambda: e2.ray_tracer(b, op['reps'], op['min_e']))
            at = int(op['fault'][0]*len(log))
            seam.reseed(op['seed'])
            out, _ = seams.run_with_fault(ctx.lines, at, seams.FAULTS[op['fault'][1]], go)
            if out == 'fault':
                ctx.fault(op['fault'][1])
                ctx.state('fault at', seams.short(log[at], ctx.root))
            seam.reseed(op['seed'])
        go()
        shape = []
        for lev in range(eng.tree.num_bunds()):
            q = eng.tree[lev]
            if q.get_num_rays() == 0:
                continue
            try:
                uids = q.get_uid().tolist()
            except (AttributeError, KeyError):
                ctx.violate('C16:lost', '%s: level %d lost the property uid' % (what, lev))
                return
            shape.append(uids)
            for p in op['props']:
                try:
                    a = getattr(q, 'get_' + p)()
                except (AttributeError, KeyError):
                    ctx.violate('C16:lost', '%s: level %d lost the property %s' % (what, lev, p))
                    return
                if a.shape != DIMS[p] + (len(uids),):
                    ctx.violate('C16:shape', '%s: level %d: %s has shape %r for %d rays' % (what, lev, p, a.shape, len(uids)))
                    return
                for u, x in zip(uids, from_array(a)):
                    if x != code(p, u):
                        ctx.violate('C16:values', '%s: level %d: %s of a descendant of ray %d is %r, expected %r' % (
                            what, lev, p, u, x, code(p, u)))
                        return
            if lev and not op['only']:
                up = eng.tree[lev - 1].get_uid().tolist()
                for u, p in zip(uids, q.get_parents().tolist()):
                    if not 0 <= p < len(up) or up[int(p)] != u:
                        ctx.violate('C16:values', '%s: level %d: a ray of %r has parent of %r' % (what, lev, u, p))
                        return
            ctx.probe('traced bundles compared')
        ctx.event(what, shape)
        ctx.state('trace', shape, op['props'])
