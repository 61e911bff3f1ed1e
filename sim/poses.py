"""C08: poses after edit histories. C10: ownership of data."""
import scene as S
import session as SS
import oracle as O
import seams
from linalg import *
from common import *
from optical import *

MESHED = ('rect', 'round', 'hemi', 'cut', 'sphere', 'dish', 'fcyl', 'tri')


def grow(world, op):
    """Add a new part under a node of the world."""
    env, parent = world.env, world.node.at(op['path'])
    T = T4(op.get('T'))
    arr = S.arr(env, T) if op.get('T') is not None else None
    if op['what'] == 'surf':
        if parent.kind != 'obj' or parent.extra.get('nfaces') or parent.skip:
            raise S.Invalid('not an object')
        q = op['new']
        loc, rot = S.loc_rot(env, T4(q.get('T')))
        real = env.Surface(S.real_geom(env, q['g']), S.real_optics(env, q['o'], world.shared), location=loc, rotation=rot)
        node = S.Node('surf', T4(q.get('T')), real, g=q['g'], o=q['o'], name=q['g']['k'])
        parent.real.add_surface(real)
    else:
        if parent.kind != 'asm':
            raise S.Invalid('not an assembly')
        node = S.build(env, op['new'], world.shared)
        if node.kind == 'obj':
            if op.get('plain'):
                parent.real.add_object(node.real)
            else:
                parent.real.add_object(node.real, S.arr(env, T))
        else:
            if op.get('plain'):
                parent.real.add_assembly(node.real)
            else:
                parent.real.add_assembly(node.real, S.arr(env, T))
        node.T = I4 if op.get('plain') else T
    parent.kids.append(node)


def gen_c08(rng, i, tier):
    sc = S.gen_scene(rng, S.OPTS, S.GEOMS, S.MODELS, rng.choice([1, 1, 2, 3, 4]), rng.choice([1, 2, 3]), media=0.)
    w = SS.World(S.NoEnv(), sc)
    case = {'world': sc, 'ops': []}
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        r = rng.random()
        if r < 0.55:
            path, node = rng.choice(movable(w))
            op = {'op': 'move', 'path': path, 'T': S.gen_T(rng, 4.), 'via': rng.choice(['st', 'loc', 'rot'])}
            w.move(op)
        elif r < 0.8:
            asms = [list(p) for p, n in w.node.walk() if n.kind == 'asm']
            objs = [list(p) for p, n in w.node.walk() if n.kind == 'obj' and not n.skip
                    and not n.extra.get('nfaces') and all(k.g['k'] != 'cut' or True for k in n.kids)]
            what = rng.choice(['obj', 'asm', 'surf', 'model'])
            if what == 'surf' and not objs:
                what = 'obj'
            op = {'op': 'grow', 'what': what, 'T': S.gen_T(rng, 3.)}
            if what == 'surf':
                op['path'] = rng.choice(objs)
                op['new'] = {'g': S.gen_geom(rng), 'o': S.gen_opt(rng, S.OPTS, sc['n']), 'T': S.gen_T(rng, 2.)}
            else:
                op['path'] = rng.choice(asms)
                op['plain'] = rng.random() < 0.2
                if what == 'obj':
                    op['new'] = S.gen_obj(rng, S.GEOMS, S.OPTS, sc['n'], 3.)
                elif what == 'model':
                    op['new'] = S.gen_node(rng, rng.choice(S.MODELS), S.GEOMS, S.OPTS, sc['n'], 3.)
                else:
                    op['new'] = S.gen_scene(rng, S.OPTS, S.GEOMS, S.MODELS, rng.choice([1, 2]), rng.choice([0, 1]), n=sc['n'])['root']
            grow(w, op)
        else:
            op = gen_trace(rng, 0, w, sc, {'reps': (1, 2, 3), 'counts': (3, 8, 12), 'untree': 0, 'hist': 0})
            if rng.random() < 0.2:
                op.update(op='fault', kind='interrupt', loc=round(rng.random(), 4), occ=round(rng.random(), 4))
        case['ops'].append(op)
    case['ops'].append(gen_trace(rng, 0, w, sc, {'reps': (1, 2), 'counts': (6, 12), 'untree': 0, 'hist': 0}))
    return case


def world_frames(node, container=I4, path=()):
    W = matmul(container, node.T)
    yield path, node, W
    for i, k in enumerate(node.kids):
        for x in world_frames(k, W, path + (i,)):
            yield x


PTS = [(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (-3.2, 5.1, 0.7)]


def check_poses(ctx, world, what, mesh_every):
    N = ctx.env.N
    pts = N.array(PTS).T
    for q, (path, n, W) in enumerate(world_frames(world.node)):
        T = n.T
        where = '%s: %s at %r' % (what, n.kind, path)
        got = n.real.get_transform().tolist()
        if max(abs(got[i][j] - T[i][j]) for i in range(4) for j in range(4)) > 1e-12:
            ctx.violate('C08:transform', '%s reports transform %r, set to %r' % (where, got, T))
            return
        loc = n.real.get_location().tolist()
        if max(abs(loc[i] - T[i][3]) for i in range(3)) > 1e-12:
            ctx.violate('C08:location', '%s reports location %r, set to %r' % (where, loc, [T[i][3] for i in range(3)]))
            return
        rot = n.real.get_rotation().tolist()
        if max(abs(rot[i][j] - T[i][j]) for i in range(3) for j in range(3)) > 1e-12:
            ctx.violate('C08:rotation', '%s reports rotation %r' % (where, rot))
            return
        if n.kind != 'surf':
            continue
        ctx.probe('surface poses judged')
        loc = n.real.global_to_local(pts)[:3].T.tolist()
        for p, g in zip(PTS, loc):
            want = inv_pt(W, p)
            if max(abs(want[i] - g[i]) for i in range(3)) > 1e-9*(1 + norm(want)):
                ctx.violate('C08:pose', '%s (%s): global point %r is %r in local coordinates, expected %r' % (
                    where, n.name, p, tuple(g), want))
                return
        if n.g['k'] in MESHED and (q + mesh_every) % 3 == 0:
            check_mesh(ctx, n, W, where)
            if ctx.violations:
                return


def check_mesh(ctx, n, W, where, cls='C08:mesh'):
    res = 2
    lx, ly, lz = [a for a in n.real.get_geometry_manager().mesh(res)]
    gx, gy, gz = [a for a in n.real.mesh(res)]
    if gx.shape != lx.shape:
        ctx.violate(cls, '%s: global mesh of shape %r, local %r' % (where, gx.shape, lx.shape))
        return
    ctx.probe('meshes judged')
    loc = list(zip(lx.ravel().tolist(), ly.ravel().tolist(), lz.ravel().tolist()))
    glo = list(zip(gx.ravel().tolist(), gy.ravel().tolist(), gz.ravel().tolist()))
    step = max(1, len(loc)//12)
    for a, b in list(zip(loc, glo))[::step]:
        want = xform_pt(W, a)
        if max(abs(want[i] - b[i]) for i in range(3)) > 1e-9*(1 + norm(want)):
            ctx.violate(cls, '%s: mesh point %r, expected %r' % (where, b, want))
            return


class PoseSession(SS.Session):
    def __init__(self, ctx, case, accept):
        SS.Session.__init__(self, ctx, dict(case, worlds=[case['world']]), None, accept)

    def op_grow(self, op, what):
        w = self.worlds[0]
        grow(w, op)
        for om, n in w.receivers():
            om = S.unwrap(om)
            self.ledgers.setdefault(id(om), (om, []))
        self.ctx.probe('parts added')
        self.ctx.event('grow', op['path'])

    def op_fault(self, op, what):
        # interrupt the trace at a line event chosen on a rehearsal in place
        go, eng, b = self.start(dict(op, eng='new'))
        _, log = seams.record_lines(self.ctx.lines, go)
        inst = seams.pick_instant(log, op['loc'], op['occ'])
        if inst is None:
            raise S.Invalid('nothing')
        go, eng, b = self.start(op)
        out, _ = seams.run_with_fault(self.ctx.lines, inst, seams.SimInterrupt, go)
        self.ctx.fault('interrupt')

    def op_move(self, op, what):
        SS.Session.op_move(self, op, what)
        kinds = [n.kind for n in [self.worlds[0].node.at(op['path'])]]
        self.ctx.state('move', op['path'], kinds, op['via'])

    def after(self, op, i):
        check_poses(self.ctx, self.worlds[0], 'after op %d (%s)' % (i, op['op']), i)


def run_c08(ctx, case):
    s = PoseSession(ctx, case, ['C01', 'C02:direction'])
    check_poses(ctx, s.worlds[0], 'after building', 0)
    if not ctx.violations:
        s.run()
    ctx.state('shape', [(p, n.kind) for p, n in s.worlds[0].node.walk()], [o['op'] for o in case['ops']])


# ------------------------------------------------------------------- C10

class Watch(object):
    """Arrays whose bytes must not change."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.items = []      # [group, label, array, bytes, scribblable]
        self.groups = 0

    def add(self, label, arrays, own=False):
        self.groups += 1
        for a in arrays:
            if a is None:
                continue
            self.items.append([self.groups, label, a, snap(a), own])
        return self.groups

    def check(self, what):
        for g, label, a, b, own in self.items:
            if snap(a) != b:
                self.ctx.violate('C10:changed', '%s changed %s' % (what, label))
                return

    def scribble(self, pick):
        """The caller overwrites one delivered result."""
        groups = sorted(set(x[0] for x in self.items if x[4]))
        if not groups:
            return None
        g = groups[pick % len(groups)]
        label = None
        for x in self.items:
            if x[0] == g:
                label = x[1]
                if x[2].size and x[2].flags.writeable:
                    x[2][...] = -77 if x[2].dtype.kind in 'iu' else 7777.5
        self.items = [x for x in self.items if x[0] != g]
        return label


def snap(a):
    return (a.shape, a.dtype.str, a.tobytes())


def bundle_arrays(b):
    out = []
    for name in ('vertices', 'directions', 'energy', 'ref_index', 'parents', 'uid'):
        try:
            out.append(getattr(b, 'get_' + name)())
        except (KeyError, AttributeError):
            pass
    return out


class OwnSession(SS.Session):
    reuse = False            # what the caller overwrites is not traced again

    def __init__(self, ctx, case, accept):
        ctx.env.given = []
        try:
            SS.Session.__init__(self, ctx, case, None, accept)
        finally:
            log, ctx.env.given = ctx.env.given, None
        self.watch = Watch(ctx)
        self.trees = []          # (what, tree, its bundles when delivered)
        self.frame_arrays = [a for k, a in log if k == 'frame']
        for k, a in log:
            self.watch.add('an array given as %s while building' % k, [a])

    def started(self, b):
        self.watch.add('a source bundle', bundle_arrays(b))

    def start(self, op, w=None, bundle=None):
        go, eng, b = SS.Session.start(self, op, w, bundle)
        self.started(b)
        return go, eng, b

    def judge_trace(self, w, op, eng, b, ret, what):
        r = SS.Session.judge_trace(self, w, op, eng, b, ret, what)
        if not self.ctx.violations:
            bunds = [eng.tree[q] for q in range(eng.tree.num_bunds())]
            self.trees.append((what, eng.tree, bunds))
            for q in range(1, eng.tree.num_bunds()):
                self.watch.add('bundle %d of the tree of %s' % (q, what), bundle_arrays(eng.tree[q]), own=True)
            if op['reps'] and eng.tree.num_bunds() > 1:
                self.watch.add('the rays returned by %s' % what, list(ret), own=True)
        return r

    def op_move(self, op, what):
        env = self.env
        env.given = []
        try:
            SS.Session.op_move(self, op, what)
        finally:
            log, env.given = env.given, None
        for k, a in log:
            if k == 'frame':
                self.frame_arrays.append(a)
            self.watch.add('an array given by %s' % what, [a])

    def op_hits(self, op, what):
        keys = list(self.ledgers)
        if not keys:
            raise S.Invalid('no receivers')
        om, entries = self.ledgers[keys[op['r'] % len(keys)]]
        e, p = om.get_all_hits()
        self.watch.add('hits got by %s' % what, [e, p], own=True)
        self.ctx.probe('hit arrays watched')

    def op_mesh(self, op, what):
        nodes = [n for p, n in self.worlds[0].node.walk() if n.kind == 'surf' and n.g['k'] in MESHED]
        if not nodes:
            raise S.Invalid('no meshed surface')
        n = nodes[op['r'] % len(nodes)]
        m = n.real.mesh(3)
        self.watch.add('mesh got by %s' % what, [m[i] for i in range(3)], own=True)
        self.ctx.probe('meshes watched')

    def op_histo(self, op, what):
        nodes = [n for p, n in self.worlds[0].node.walk() if 'hist' in n.extra]
        if not nodes:
            raise S.Invalid('no receiver with histogram')
        self.watch.add('histogram got by %s' % what, list(nodes[0].real.histogram_hits(5)), own=True)

    def op_aim(self, op, what):
        self.worlds[0].move(op)
        self.ctx.probe('fields aimed')

    def op_scribble(self, op, what):
        label = self.watch.scribble(op['r'])
        self.ctx.event('scribble', label)
        if label:
            self.ctx.fault('delivered result overwritten by the caller')
            # a receiver asked again still reports what it recorded
            rep = O.Report()
            for i, k in enumerate(self.ledgers):
                om, entries = self.ledgers[k]
                e, p = om.get_all_hits()
                O.check_ledger(rep, om, entries, e.tolist(), [tuple(c) for c in p.T.tolist()], 'receiver %d' % i)
            take_report(self.ctx, rep, ['C09'], what + ' after overwriting %s: ' % label)

    def op_reuse(self, op, what):
        """The caller reuses arrays that once set a frame."""
        n = 0
        for a in self.frame_arrays:
            a[...] = -55.25
            n += 1
        ids = set(id(a) for a in self.frame_arrays)
        self.watch.items = [x for x in self.watch.items if id(x[2]) not in ids]
        self.frame_arrays = []
        self.ctx.fault('frame array reused by the caller', n)
        check_poses(self.ctx, self.worlds[0], what, 0)

    def op_bundle(self, op, what):
        """Derive bundles; they share nothing."""
        env, N = self.env, self.N
        b = S.real_bundle(env, op['b'])
        src = bundle_arrays(b)
        self.watch.add('a bundle derived from (%s)' % what, src)
        n = len(op['b']['rays'])
        sel = N.array([i % n for i in op['sel']], dtype=int)
        how = op['how']
        if how == 'inherit':
            d = b.inherit(sel)
        elif how == 'inherit all':
            d = b.inherit()
        elif how == 'slice':
            d = b.inherit(slice(0, max(1, n//2)))
        elif how == 'mask':
            m = N.zeros(n, dtype=bool)
            m[sel] = True
            d = b.inherit(m)
        elif how == 'delete':
            d = b.delete_rays(sel)
        elif how == 'delete none':
            d = b.delete_rays(N.array([], dtype=int))
        elif how == 'add':
            b2 = S.real_bundle(env, op['b'])
            self.watch.add('the second of two added bundles', bundle_arrays(b2))
            d = b + b2
        elif how == 'add empty':
            d = b + b.inherit(N.array([], dtype=int))
        else:
            d = env.concatenate_rays([b] if op['one'] else [b, b])
        for a in bundle_arrays(d):
            if a.size:
                a[...] = 7 if a.dtype.kind in 'iu' else 123.25
        self.ctx.fault('delivered result overwritten by the caller')
        # and the other way round: overwriting the parent leaves the derived alone
        g = self.watch.add('a bundle derived by %s' % how, bundle_arrays(d), own=True)
        self.watch.check(what + ' (writing into a bundle derived by %s)' % how)

    def after(self, op, i):
        if not self.ctx.violations:
            self.watch.check('op %d (%s)' % (i, op['op']))
            for what, tree, bunds in self.trees:
                if tree.num_bunds() != len(bunds) or not all(tree[q] is b for q, b in enumerate(bunds)):
                    self.ctx.violate('C10:changed', 'op %d (%s) changed the tree of %s' % (i, op['op'], what))
                    break
            self.ctx.probe('arrays compared', len(self.watch.items))


def gen_c10(rng, i, tier):
    mix = {'opts': S.OPTS + ('rr', 'rr', 'rr'), 'models': S.MODELS + ('minidish',), 'untree': 0.1,
           'counts': (1, 3, 6, 10), 'reps': (1, 2, 3)}
    case = gen_session(rng, dict(mix, nops=(2, 3, 4, 5), ops={'conc': 0.5, 'fault': 1, 'userfault': 1, 'nested': 0.5}))
    w = SS.World(S.NoEnv(), case['worlds'][0])
    n = case['worlds'][0]['n']
    fields = [sp for sp in find_specs(case['worlds'][0]['root'], 'field')]
    out = []
    has_recv = bool(w.receivers())
    has_mesh = any(nd.kind == 'surf' and nd.g['k'] in MESHED for p, nd in w.node.walk())
    has_hist = any('hist' in nd.extra for p, nd in w.node.walk())
    for op in case['ops']:
        out.append(op)
        for _ in range(rng.choice([0, 1, 1, 2])):
            k = rng.choice(['hits', 'mesh', 'histo', 'scribble', 'scribble', 'reuse', 'bundle', 'bundle', 'aim'])
            if k == 'hits' and has_recv:
                out.append({'op': 'hits', 'r': rng.randrange(6)})
            elif k == 'mesh' and has_mesh:
                out.append({'op': 'mesh', 'r': rng.randrange(20)})
            elif k == 'histo' and has_hist:
                out.append({'op': 'histo'})
            elif k == 'scribble':
                out.append({'op': 'scribble', 'r': rng.randrange(30)})
            elif k == 'reuse':
                out.append({'op': 'reuse'})
            elif k == 'aim' and len(fields) == 1 and case['worlds'][0]['root'] is not fields[0]:
                out.append({'op': 'aim', 'spec': fields[0], 'sun': [S.rnd(rng, -3, 3), S.rnd(rng, 0, 1.2)]})
            elif k == 'bundle':
                out.append({'op': 'bundle', 'b': gen_bundle(rng, w, rng.choice([1, 2, 5]), n),
                            'how': rng.choice(['inherit', 'inherit all', 'slice', 'mask', 'delete', 'delete none', 'add', 'add empty', 'cat']),
                            'one': rng.random() < 0.5,
                            'sel': [rng.randrange(5) for _ in range(rng.randint(1, 3))]})
    case['ops'] = out
    return case


def find_specs(node, t):
    if node.get('t') == t:
        yield node
    for k in node.get('kids', ()):
        for x in find_specs(k, t):
            yield x


def run_c10(ctx, case):
    s = OwnSession(ctx, case, ['C01', 'C04:source'])
    s.run()
    ctx.state('ops', [(o['op'], o.get('how'), o.get('via')) for o in case['ops']])
