"""
C13: user-written surfaces and objects whose answers are scripted by a tag
that each ray carries, and a model of what the engine has to ask them.

A ray's tag says where it comes from: child = parent*K + 1 + surface*B + branch.
"""
import zlib
import scene as S
import seams
from common import *
from optical import *

B = 4


def mix(seed, *parts):
    return zlib.crc32(repr((seed,) + parts).encode('ascii'))


class Script(object):
    """What the scripted scene answers, as a function of tags."""
    def __init__(self, spec):
        self.seed = spec['seed']
        self.spec = spec
        self.nsurf = sum(spec['objs'])
        self.K = 1 + B*max(1, self.nsurf)
        self.obj_of = [o for o, n in enumerate(spec['objs']) for _ in range(n)]
        self.rel_of = [k for o, n in enumerate(spec['objs']) for k in range(n)]
        self.first = [sum(spec['objs'][:o]) for o in range(len(spec['objs']))]

    def param(self, tag, s):
        r = mix(self.seed, 't', tag, s) % 100
        if r < self.spec['miss']:
            return float('inf')
        if r < self.spec['miss'] + 8:
            return (0., 1e-10)[r % 2]
        # distinct for each surface
        return 0.01 + (mix(self.seed, 'p', tag, s) % 1000)*0.013 + s*1e-4

    def branches(self, tag, s):
        r = mix(self.seed, 'b', tag, s) % 100
        return 1 if r < 55 else (2 if r < 80 else (3 if r < 90 else 0))

    def share(self, child):
        return (1., 1., 0.5, 0.5, 0.25, 0.)[mix(self.seed, 'e', child) % 6]

    def owns(self, child):
        return mix(self.seed, 'o', child) % 100 < self.spec['own']

    def relevant(self, child, rel):
        return mix(self.seed, 'r', child, rel) % 100 >= self.spec['skip']

    def child(self, tag, s, branch):
        return tag*self.K + 1 + s*B + branch

    def origin(self, tag):
        """(parent, surface, branch)"""
        q = (tag - 1) % self.K
        return (tag - 1)//self.K, q//B, q % B

    def outgoing(self, tags, s):
        """children of selected rays: list of (index into tags, child tag), in the surface's own order"""
        out = []
        for i, t in enumerate(tags):
            for b in range(self.branches(t, s)):
                out.append((i, self.child(t, s, b)))
        how = mix(self.seed, 'order', s) % 3
        if how == 1:
            out.sort(key=lambda x: (self.origin(x[1])[2], x[0]))
        elif how == 2:
            out.sort(key=lambda x: mix(self.seed, 'sh', x[1]))
        return out


class Log(object):
    def __init__(self):
        self.calls = []
        self.fuse = None        # (callback name, how many calls to go)
        self.bad = None

    def note(self, name, *what):
        self.calls.append((name,) + what)
        if self.fuse is not None and self.fuse[0] == name:
            self.fuse[1] -= 1
            if self.fuse[1] <= 0:
                self.fuse = None
                raise seams.UserFault('scripted')


def tags_of(bundle):
    return [int(x) for x in bundle.get_tag().tolist()]


class PSurface(object):
    """Not derived from anything in the package."""
    def __init__(self, N, script, log, s):
        self.N, self.script, self.log, self.s = N, script, log, s

    def transform_frame(self, t):
        pass

    def register_incoming(self, bundle):
        tags = tags_of(bundle)
        self.bundle, self.tags = bundle, tags
        self.log.note('register', self.s, tags)
        return self.N.array([self.script.param(t, self.s) for t in tags])

    def select_rays(self, idxs):
        self.idxs = [int(i) for i in idxs]
        self.log.note('select', self.s, [self.tags[i] for i in self.idxs])

    def get_outgoing(self):
        N, sc = self.N, self.script
        self.log.note('outgoing', self.s)
        sel = [self.tags[i] for i in self.idxs]
        out = sc.outgoing(sel, self.s)
        par = N.array([self.idxs[i] for i, c in out], dtype=int)
        e = self.bundle.get_energy()
        tag = N.array([float(c) for i, c in out])
        v = N.array([[float(c % 1009), float(self.s), 0.] for i, c in out]).reshape(-1, 3).T
        return self.bundle.inherit(par, vertices=v, parents=par, tag=tag,
                                   energy=N.array([e[p]*sc.share(c) for p, (i, c) in zip(par.tolist(), out)]))

    def done(self):
        self.log.note('done', self.s)


def make_object(env, script, log, o, surfs):
    N = env.N

    class PObject(env.AssembledObject):
        def own_rays(self, rays, surface_id):
            t = tags_of(rays)
            log.note('own', o, int(surface_id), t)
            return N.array([script.owns(x) for x in t], dtype=bool)

        def surfaces_for_next_iteration(self, rays, surface_id):
            t = tags_of(rays)
            log.note('relevant', o, int(surface_id), t)
            return N.array([[script.relevant(x, k) for x in t] for k in range(len(surfs))],
                           dtype=bool).reshape(len(surfs), len(t))
    return PObject(surfs=list(surfs))


class PScene(object):
    def __init__(self, env, spec):
        self.env, self.spec = env, spec
        self.script = Script(spec)
        self.log = Log()
        self.surfs = [PSurface(env.N, self.script, self.log, s) for s in range(self.script.nsurf)]
        objs = []
        for o, n in enumerate(spec['objs']):
            f = self.script.first[o]
            objs.append(make_object(env, self.script, self.log, o, self.surfs[f:f + n]))
        self.asm = self.build(spec['tree'], objs)
        self.engines = {}

    def build(self, t, objs):
        """t: list of object numbers and nested lists"""
        return self.env.Assembly(objects=[objs[k] for k in t if not isinstance(k, list)],
                                 subassemblies=[self.build(k, objs) for k in t if isinstance(k, list)])

    def engine(self, which):
        if which == 'new' or which not in self.engines:
            e = self.env.TracerEngine(self.asm)
            if which == 'new':
                return e
            self.engines[which] = e
        return self.engines[which]

    def bundle(self, rays):
        N = self.env.N
        n = len(rays)
        return self.env.RayBundle(N.zeros((3, n)), N.array([[0., 0., 1.]]*n).reshape(-1, 3).T,
                                  energy=N.array([r[1] for r in rays]), ref_index=N.ones(n),
                                  tag=N.array([float(r[0]) for r in rays]))


def expected(script, rays, reps, min_e):
    """
    rays: [(tag, energy)]. -> list of bounces; each is a dict with offered tags
    and first-hit tags per surface, and the children [(tag, energy, parent tag)].
    """
    live = [(t, e, None, None) for t, e in rays]     # tag, energy, owner, surface it left
    out = []
    for _ in range(reps):
        offered = [[] for _ in range(script.nsurf)]
        hit = [[] for _ in range(script.nsurf)]
        kids = []
        for t, e, owner, left in live:
            best = None
            for s in range(script.nsurf):
                o = script.obj_of[s]
                if owner is not None and owner != o:
                    continue
                if left is not None and script.obj_of[left] == o and not script.relevant(t, script.rel_of[s]):
                    continue
                offered[s].append(t)
                p = script.param(t, s)
                if p > 1e-6 and p < float('inf') and (best is None or p < best[0]):
                    best = (p, s)
            if best is not None:
                hit[best[1]].append(t)
                for b in range(script.branches(t, best[1])):
                    c = script.child(t, best[1], b)
                    kids.append((c, e*script.share(c), t, best[1]))
        out.append({'offered': offered, 'hit': hit, 'kids': kids})
        live = [(c, e, script.obj_of[s] if script.owns(c) else None, s) for c, e, t, s in kids if e > min_e]
        if not live:
            break
    return out


def judge(ctx, scene, calls, exp, tree, rays, min_e, what, complete=True):
    """Compare the engine's calls and the tree with the model."""
    sc = scene.script
    pos = 0

    def bad(cls, msg):
        ctx.violate('C13:' + cls, '%s: %s' % (what, msg))
    # split the calls into bounces: a register after any other call starts one
    bounces, cur = [], None
    for c in calls:
        if c[0] == 'register' and (cur is None or cur[-1][0] != 'register'):
            cur = []
            bounces.append(cur)
        if cur is None:
            cur = []
            bounces.append(cur)
        cur.append(c)
    # a bounce in which nothing is offered has no register call
    merged = []
    k = 0
    for i, x in enumerate(exp):
        if not any(x['offered']):
            continue
        if k >= len(bounces):
            bad('bounces', 'bounce %d of %d was not made' % (i, len(exp)))
            return
        merged.append((i, x, bounces[k]))
        k += 1
    if k < len(bounces) and any(c[0] == 'register' and c[2] for b in bounces[k:] for c in b):
        bad('bounces', '%d bounces made, %d expected' % (len(bounces), k))
        return
    for i, x, cs in merged:
        w = 'bounce %d: ' % i
        last = {}
        regs = {}
        sels = {}
        outs = {}
        for c in cs:
            name, s = c[0], c[1]
            if name == 'register':
                if s in regs:
                    bad('offer', w + 'surface %d registered twice' % s)
                    return
                regs[s] = c[2]
            elif name == 'select':
                if s in sels:
                    bad('select', w + 'surface %d selected twice' % s)
                    return
                sels[s] = c[2]
            elif name == 'outgoing':
                if s not in sels and x['hit'][s]:
                    bad('order', w + 'surface %d continued before selection' % s)
                    return
                if s in outs:
                    bad('order', w + 'surface %d continued twice' % s)
                    return
                outs[s] = True
            elif name in ('own', 'relevant'):
                o, rel, tags = c[1:]
                g = sc.first[o] + rel if rel < sc.spec['objs'][o] else None
                for t in tags:
                    if sc.origin(t)[1] != g:
                        bad('answers', w + 'object %d asked about surface %d for a ray of surface %d' % (o, rel, sc.origin(t)[1]))
                        return
                continue
            last[s] = name
        for s in range(sc.nsurf):
            if regs.get(s, []) != x['offered'][s] and sorted(regs.get(s, [])) != sorted(x['offered'][s]):
                bad('offer', w + 'surface %d was offered rays %r, expected %r' % (s, regs.get(s, []), x['offered'][s]))
                return
            if sorted(sels.get(s, [])) != sorted(x['hit'][s]):
                bad('select', w + 'surface %d had rays %r selected, first hit by %r' % (s, sels.get(s, []), x['hit'][s]))
                return
            if x['hit'][s] and s not in outs:
                bad('continue', w + 'surface %d was not asked for outgoing rays' % s)
                return
            if s in last and last[s] != 'done':
                bad('release', w + 'surface %d was not released' % s)
                return
            if s not in last:
                bad('release', w + 'surface %d was neither offered rays nor released' % s)
                return
    # the tree
    lev = [[(int(t), e) for t, e in zip(tree[q].get_tag().tolist(), tree[q].get_energy().tolist())] if
           tree[q].get_num_rays() else [] for q in range(tree.num_bunds())]
    want = [[(t, e) for t, e in rays]]
    for x in exp:
        if x['kids']:
            want.append([(c, e) for c, e, t, s in x['kids']])
    if len(lev) != len(want):
        bad('tree', '%d levels recorded, expected %d' % (len(lev), len(want)))
        return
    for q in range(len(lev)):
        if sorted(lev[q]) != sorted(want[q]):
            bad('tree', 'level %d holds %r, expected %r' % (q, sorted(lev[q])[:8], sorted(want[q])[:8]))
            return
        if q:
            par = tree[q].get_parents().tolist()
            for (t, e), p in zip(lev[q], par):
                if not 0 <= p < len(lev[q - 1]) or lev[q - 1][int(p)][0] != sc.origin(t)[0]:
                    bad('parent', 'level %d: ray %d has parent %r' % (q, t, p))
                    return
            strong = [e > min_e for t, e in lev[q]]
            if strong != sorted(strong, reverse=True):
                bad('tree', 'level %d: rays still followed are not first' % q)
                return
            v = [tuple(x) for x in tree[q].get_vertices().T.tolist()]
            for (t, e), x in zip(lev[q], v):
                if x != (float(t % 1009), float(sc.origin(t)[1]), 0.):
                    bad('tree', 'level %d: ray %d has the vertex of another' % (q, t))
                    return


# ------------------------------------------------------------------ cases

def gen_scene(rng):
    objs = [rng.choice([1, 1, 2, 3, 4, 0]) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    if not any(objs):
        objs[0] = 2
    while sum(objs) > 9:
        objs[objs.index(max(objs))] -= 1
    ids = list(range(len(objs)))
    rng.shuffle(ids)
    tree = []
    for o in ids:
        t = tree
        for _ in range(rng.choice([0, 0, 1, 2])):
            subs = [x for x in t if isinstance(x, list)]
            if subs and rng.random() < 0.5:
                t = rng.choice(subs)
            else:
                t.append([])
                t = t[-1]
        t.insert(rng.randrange(len(t) + 1), o)
    return {'objs': objs, 'tree': prune(tree), 'seed': rng.randrange(1 << 30), 'miss': rng.choice([0, 10, 40]),
            'own': rng.choice([0, 30, 60, 100]), 'skip': rng.choice([0, 20, 50])}


def prune(t):
    """No assembly without surfaces in it: the package cannot list those."""
    out = []
    for k in t:
        if isinstance(k, list):
            k = prune(k)
            if not k:
                continue
        out.append(k)
    return out


def gen_ptrace(rng, si):
    n = rng.choice([1, 2, 3, 5, 9])
    return {'op': 'trace', 's': si, 'eng': rng.choice(['new', 0, 0]),
            'rays': [[1 + k, rng.choice([1., 2., 4., 0.5])] for k in range(n)],
            'reps': rng.choice([1, 2, 3, 4, 5, 6]), 'min_e': rng.choice([0., 0., 0.1, 0.25, 0.5, 1.])}


def gen_c13(rng, i, tier):
    case = {'scenes': [gen_scene(rng) for _ in range(2)], 'ops': []}
    for _ in range(rng.choice([1, 2, 3, 5])):
        r = rng.random()
        if r < 0.5:
            op = gen_ptrace(rng, rng.randrange(2))
        elif r < 0.7:
            op = gen_ptrace(rng, rng.randrange(2))
            op.update(op='callback', name=rng.choice(['register', 'select', 'outgoing', 'own', 'relevant', 'done']),
                      count=rng.choice([1, 1, 2, 3, 5, 9]))
        elif r < 0.85:
            op = gen_ptrace(rng, rng.randrange(2))
            op.update(op='interrupt', at=round(rng.random(), 4), kind=rng.choice(['interrupt', 'memory']))
        else:
            op = {'op': 'conc', 'parts': [gen_ptrace(rng, 0), gen_ptrace(rng, 1)], 'sched': gen_sched(rng, 2)}
        case['ops'].append(op)
    if case['ops'][-1]['op'] not in ('trace', 'conc'):
        case['ops'].append(gen_ptrace(rng, case['ops'][-1]['s']))
    return case


def run_c13(ctx, case):
    env = ctx.env
    scenes = [PScene(env, sp) for sp in case['scenes']]
    for i, op in enumerate(case['ops']):
        what = 'op %d (%s)' % (i, op['op'])
        parts = op['parts'] if op['op'] == 'conc' else [op]
        if any(p['s'] >= len(scenes) for p in parts) or len(set(p['s'] for p in parts)) < len(parts):
            raise S.Invalid('scene')
        todo = []
        for p in parts:
            sc = scenes[p['s']]
            if not p['rays']:
                raise S.Invalid('no rays')
            rays = [(r[0], r[1]) for r in p['rays']]
            eng = sc.engine(p['eng'])
            b = sc.bundle(rays)
            sc.log.calls = []
            sc.log.fuse = None

            def go(eng=eng, b=b, p=p):
                return eng.ray_tracer(b, p['reps'], p['min_e'])
            todo.append((sc, eng, p, rays, go))
        if op['op'] == 'callback':
            sc, eng, p, rays, go = todo[0]
            sc.log.fuse = [op['name'], op['count']]
            try:
                go()
            except seams.UserFault:
                ctx.fault('user callable raised')
            sc.log.fuse = None
            ctx.event(what, len(sc.log.calls))
            ctx.state('callback', op['name'], len(sc.log.calls))
            continue
        if op['op'] == 'interrupt':
            sc, eng, p, rays, go = todo[0]
            _, log = seams.record_lines(ctx.lines, go)
            at = int(op['at']*len(log))
            out, _ = seams.run_with_fault(ctx.lines, at, seams.FAULTS[op['kind']], go)
            if out == 'fault':
                ctx.fault(op['kind'])
                ctx.state('fault at', seams.short(log[at], ctx.root))
            ctx.event(what, out)
            continue
        if op['op'] == 'conc':
            sch = seams.Scheduler(ctx.lines, op['sched'])
            res = sch.run([t[4] for t in todo])
            ctx.fault('thread switch', len(sch.switches))
            for st, val in res:
                if st == 'exc':
                    raise val
        else:
            todo[0][4]()
        for sc, eng, p, rays, go in todo:
            exp = expected(sc.script, rays, p['reps'], p['min_e'])
            judge(ctx, sc, sc.log.calls, exp, eng.tree, rays, p['min_e'], what)
            ctx.probe('protocol calls judged', len(sc.log.calls))
            ctx.probe('bounces judged', len(exp))
            ctx.state('protocol', [(x['offered'], x['hit']) for x in exp])
            ctx.event(what, len(sc.log.calls), len(exp))
            if ctx.violations:
                return
