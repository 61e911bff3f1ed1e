"""
A user session with the tracer, simulated: worlds (scenes with their mirrored
trees and engines), traces, moves, interruptions, failing user callables,
re-entrant and concurrent traces, receiver queries and resets.
"""
import scene as S
import oracle as O
import seams
from linalg import *
from common import *

JUDGE = ('C01', 'C02', 'C03', 'C04', 'C09', 'C12', 'C14')


class World(object):
    def __init__(self, env, spec, shared=None, like=None):
        self.env, self.spec = env, spec
        self.shared = {} if shared is None else shared
        self.node = S.build(env, spec['root'], self.shared)
        self.moves = []
        self.engines = {}
        self.moved = 0
        if like is not None:
            for m in like.moves:
                self.move(m)

    def twin(self):
        """The same scene in the same pose, never traced before."""
        return World(self.env, self.spec, None, self)

    def surfs(self):
        return S.flatten(self.node)

    def engine(self, key):
        if key == 'new':
            return self.env.TracerEngine(self.node.real)
        if key not in self.engines:
            self.engines[key] = self.env.TracerEngine(self.node.real)
        return self.engines[key]

    def aim(self, op):
        nodes = [n for p, n in self.node.walk() if p and hasattr(n.real, 'aim_to_sun')]
        if not nodes:
            raise S.Invalid('no field')
        n, spec = nodes[0], op['spec']
        n.real.aim_to_sun(*op['sun'])
        for p, k in zip(spec['pos'], n.kids):
            k.T = S.aim_T(p, spec['th'], *op['sun'])
        self.moves.append(op)
        self.moved += 1

    def move(self, op):
        if op['op'] == 'aim':
            return self.aim(op)
        if op.get('via') in ('grow', 'drop', 'shift', 'swap'):
            return self.rebuild(op)
        node = self.node.at(op['path'])
        if node.compound is not None and node.kind == 'surf':
            raise S.Invalid('a face of a compound receiver')
        T = T4(op.get('T'))
        via = op.get('via', 'st')
        if via in ('radius', 'verts') and (node.kind != 'surf' or node.g['k'] not in S.RESHAPE[via]):
            raise S.Invalid('no such shape')
        self.moves.append(op)
        if via == 'radius':
            node.real.get_geometry_manager().set_radius(op['R'])
            node.g = dict(node.g, R=op['R'])
        elif via == 'verts':
            node.real.get_geometry_manager().set_vertices(
                S.given(self.env, self.env.N.array(op['verts'], dtype=float).T, 'data'))
            node.g = dict(node.g, verts=op['verts'])
        elif via == 'st':
            node.real.set_transform(S.arr(self.env, T))
            node.T = T
        elif via == 'loc':
            node.real.set_location(S.given(self.env, self.env.N.array([T[i][3] for i in range(3)])))
            node.T = homog([r[:3] for r in node.T[:3]], [T[i][3] for i in range(3)])
        else:
            node.real.set_rotation(S.arr(self.env, [r[:3] for r in T[:3]]))
            node.T = homog([r[:3] for r in T[:3]], [node.T[i][3] for i in range(3)])
        self.moved += 1

    def rebuild(self, op):
        """Add, remove or re-hang a part of the scene."""
        via, path = op['via'], tuple(op['path'])
        node = self.node.at(path)

        def hang(parent, child):
            if not parent.extra.get('plain') or (parent.kind == 'obj') != (child.kind == 'surf'):
                raise S.Invalid('cannot hang there')
            if child.kind == 'surf':
                parent.real.add_surface(child.real)
            elif child.kind == 'obj':
                parent.real.add_object(child.real, S.arr(self.env, child.T))
            else:
                parent.real.add_assembly(child.real, S.arr(self.env, child.T))
            parent.kids.append(child)

        def unhang(path):
            if not path:
                raise S.Invalid('the top')
            parent, child = self.node.at(path[:-1]), self.node.at(path)
            if not parent.extra.get('plain') or len(parent.kids) < 2:
                raise S.Invalid('cannot be taken off')
            if not isinstance(self.env, S.NoEnv):
                get = {'surf': parent.real.get_surfaces, 'obj': getattr(parent.real, 'get_local_objects', None),
                       'asm': getattr(parent.real, 'get_assemblies', None)}[child.kind]
                if get() is not get() or child.real not in get():
                    raise S.Invalid('the parts are not held in a list of their own')
                get().remove(child.real)
            parent.kids.remove(child)
            return child
        if via == 'swap':
            self.gone = getattr(self, 'gone', []) + [unhang(path)]
            node = self.node.at(path[:-1])
        if via in ('grow', 'swap'):
            if 'g' in op['new']:
                child = S.build_surf(self.env, op['new'], self.shared)
            else:
                child = S.build(self.env, op['new'], self.shared)
            hang(node, child)
        elif via == 'drop':
            self.gone = getattr(self, 'gone', []) + [unhang(path)]
        else:
            to = tuple(op['to'])
            if to[:len(path)] == path:
                raise S.Invalid('into itself')
            dest = self.node.at(to)
            if not dest.extra.get('plain') or (dest.kind == 'obj') != (node.kind == 'surf'):
                raise S.Invalid('cannot hang there')
            child = unhang(path)
            if child.kind != 'surf':
                child.T = T4(op.get('T'))
            hang(dest, child)
        self.moves.append(op)
        self.moved += 1

    def optics(self):
        """All user-written optics in this world, in tree order."""
        out = []
        for path, n in self.node.walk():
            if n.kind == 'surf' and isinstance(n.real.get_optics_manager(), S.UserOptics):
                out.append(n.real.get_optics_manager())
        return out

    def receivers(self):
        """(id of the accountant, real surface, node) of every receiver."""
        out = []
        for path, n in self.node.walk():
            if n.kind == 'surf' and n.o['k'] in O.RECV:
                out.append((n.real.get_optics_manager(), n))
        return out


PROPS = ('vertices', 'directions', 'energy', 'ref_index', 'uid')


def has(b, name):
    try:
        return getattr(b, 'get_' + name)() is not None
    except (KeyError, AttributeError):
        return False


class Session(object):
    reuse = True
    def __init__(self, ctx, case, judge, accept):
        self.ctx, self.case, self.env = ctx, case, ctx.env
        self.judge, self.accept = judge, accept
        self.N = ctx.env.N
        self.worlds = []
        shared = {}
        for spec in case['worlds']:
            self.worlds.append(World(self.env, spec, shared if case.get('share') else None))
        self.ledgers = {}          # id(accountant) -> (accountant, [(pt, e, sure)])
        for w in self.worlds:
            for om, n in w.receivers():
                om = S.unwrap(om)
                self.ledgers.setdefault(id(om), (om, []))
        self.reset_at = {}
        self.rseam = seams.RandomSeam(self.N)
        self.kept = []             # keep everything alive: ids stay unique
        self.sources = []          # (rays, bundle) of the traces so far
        self.results = []          # (what, engine.tree) of delivered traces

    # ------------------------------------------------------------- helpers
    def world(self, op):
        w = op.get('w', 0)
        if w >= len(self.worlds):
            raise S.Invalid('no world')
        return self.worlds[w]

    def seed_random(self, op):
        self.rseam.reseed(op.get('seed', 1))

    def source(self, op, w):
        """The bundle of a trace: a new one, the very one traced before if its
        rays are the same, or that one refilled by its user."""
        same, b = op.get('same'), None
        key = repr(sorted(op['b'].items()))
        if same and self.reuse and w in self.worlds:
            for k, old in self.sources:
                if same == 'refill' or k == key:
                    b = old
            if b is not None and same == 'refill':
                new = S.real_bundle(self.env, op['b'])
                names = [q for q in PROPS if has(new, q)]
                if names != [q for q in PROPS if has(b, q)]:
                    b = None
                else:
                    for q in names:
                        getattr(b, 'set_' + q)(getattr(new, 'get_' + q)())
                    self.sources = [x for x in self.sources if x[1] is not b]
            if b is not None:
                self.ctx.probe('source bundles traced again')
        if b is None:
            b = S.real_bundle(self.env, op['b'])
        self.sources.append((key, b))
        return b

    def start(self, op, w=None, bundle=None):
        """-> (function running the trace, engine, bundle)"""
        w = w or self.world(op)
        eng = w.engine(op.get('eng', 'new'))
        b = bundle if bundle is not None else self.source(op, w)
        tree = op.get('tree', True)
        if not w.surfs():
            raise S.Invalid('empty scene')

        def go():
            return eng.ray_tracer(b, op['reps'], op['min_e'], tree)
        return go, eng, b

    def account(self, entries):
        for surf, pt, e, sure in entries:
            if surf is None:
                for k in self.ledgers:
                    self.ledgers[k][1].append((pt, e, False))
            else:
                om = S.unwrap(surf.get_optics_manager())
                self.ledgers[id(om)][1].append((pt, e, sure))

    def judge_trace(self, w, op, eng, b, ret, what):
        rep = O.Report()
        levels = O.levels_of(eng.tree)
        src = O.Level(b, 0)
        if not levels or O.digest_levels([levels[0]]) != O.digest_levels([src]):
            rep.add('C04:source', 'the first recorded bundle is not the source')
        else:
            O.check_tree(w.surfs(), levels, op['reps'], op['min_e'], rep, ret)
            hist = op.get('hist')
            if hist:
                O.check_history(rep, eng.tree, levels, hist)
        self.account(rep.ledger)
        take_report(self.ctx, rep, self.accept, what + ': ')
        ctx = self.ctx
        ctx.event('trace', what, len(levels), [l.num for l in levels], rep.steps, rep.hits)
        ctx.state('tree', [(l.num, sorted(set(l.par or []))) for l in levels],
                  sorted(rep.kinds))
        ctx.probe('traces judged')
        return rep, levels

    # ----------------------------------------------------------------- ops
    def run(self):
        mode = self.case.get('rand', 'real')
        self.rseam.install(mode, self.case.get('rseed', 1))
        try:
            for i, op in enumerate(self.case['ops']):
                getattr(self, 'op_' + op['op'])(op, 'op %d (%s)' % (i, op['op']))
                self.after(op, i)
                if self.ctx.violations:
                    break
        finally:
            self.rseam.remove()
            if mode != 'real':
                self.ctx.fault('random extremes', self.rseam.injected)

    def after(self, op, i):
        pass

    def op_trace(self, op, what):
        w = self.world(op)
        self.seed_random(op)
        go, eng, b = self.start(op)
        ret = go()
        self.kept += [b, ret]
        if op.get('tree', True):
            rep, levels = self.judge_trace(w, op, eng, b, ret, what)
            self.results.append((what, eng.tree))
            return rep, levels
        # Recording off: judged by a second trace with recording on.
        kept = [O.Level(eng.tree[q], 1) for q in range(eng.tree.num_bunds())]
        self.results.append((what, eng.tree))
        self.seed_random(op)
        op2 = dict(op, tree=True)
        go2, eng2, b2 = self.start(op2)
        ret2 = go2()
        self.kept += [b2, ret2]
        rep, levels = self.judge_trace(w, op2, eng2, b2, ret2, what + ' recorded')
        self.account([e for e in rep.ledger])
        rep2 = O.Report()
        compare_unrecorded(rep2, kept, levels, op, ret, ret2)
        take_report(self.ctx, rep2, self.accept, what + ': ')
        return rep, levels

    def op_burst(self, op, what):
        """The same small trace again and again."""
        rep, levels = self.op_trace(op, what)
        want = O.digest_levels(levels)
        for k in range(op['n'] - 1):
            if self.ctx.violations:
                return
            go, eng, b = self.start(op)
            self.kept += [b, go()]
            if O.digest_levels(O.levels_of(eng.tree)) != want:
                self.ctx.probe('repeated trace differs')
                self.judge_trace(self.world(op), op, eng, b, None, what + ' again')
            else:
                self.account(rep.ledger)
        self.ctx.probe('repeated traces', op['n'])

    def op_move(self, op, what):
        self.world(op).move(op)
        for om, n in self.world(op).receivers():
            om = S.unwrap(om)
            self.ledgers.setdefault(id(om), (om, []))
        self.ctx.probe('moves')
        self.ctx.event('move', op['path'])

    def op_fault(self, op, what):
        """A trace cut short at an arbitrary line of the tree under test."""
        w = self.world(op)
        tw = w.twin()
        self.seed_random(op)
        go, eng, b = self.start(dict(op, eng='new'), tw)
        _, log = seams.record_lines(self.ctx.lines, go)
        inst = seams.pick_instant(log, op['loc'], op['occ'])
        if inst is None:
            raise S.Invalid('nothing to interrupt')
        reports = O.levels_of(eng.tree)
        self.seed_random(op)
        go, eng, b = self.start(op)
        self.kept.append(b)
        before = O.digest_levels([O.Level(b, 0)])
        out, _ = seams.run_with_fault(self.ctx.lines, inst, seams.FAULTS[op['kind']], go)
        self.ctx.event('fault', out, seams.short(log[inst], self.ctx.root))
        if out == 'fault':
            self.ctx.fault(op['kind'])
            self.ctx.state('fault at', seams.short(log[inst], self.ctx.root))
        # hits recorded by the interrupted trace are accounted as possible ones
        rep = O.Report()
        O.check_tree(w.surfs(), reports, op['reps'], op['min_e'], rep)
        self.account([(s, p, e, False) for s, p, e, x in rep.ledger])
        self.interrupted(w, op, b, before, what)

    def interrupted(self, w, op, b, before, what):
        pass

    def op_userfault(self, op, what):
        """A user-written optics callable raises."""
        w = self.world(op)
        opts = w.optics()
        if not opts:
            raise S.Invalid('no user optics')
        tw = w.twin()
        self.seed_random(op)
        go, eng, b = self.start(dict(op, eng='new'), tw)
        go()
        rep = O.Report()
        O.check_tree(w.surfs(), O.levels_of(eng.tree), op['reps'], op['min_e'], rep)
        uo = opts[op['opt'] % len(opts)]
        uo.fuse, uo.late = op['fuse'], op.get('late', False)
        self.seed_random(op)
        go, eng, b = self.start(op)
        self.kept.append(b)
        before = O.digest_levels([O.Level(b, 0)])
        try:
            go()
        except seams.UserFault:
            self.ctx.fault('user callable raised')
        uo.fuse = None
        self.account([(s, p, e, False) for s, p, e, x in rep.ledger])
        self.interrupted(w, op, b, before, what)
        self.ctx.event('userfault')

    def op_nested(self, op, what):
        """A user optics callable of one world traces another world inside."""
        w = self.world(op)
        w2 = self.worlds[1] if len(self.worlds) > 1 else None
        opts = w.optics()
        if not opts or w2 is None or w2 is w:
            raise S.Invalid('no user optics or second world')
        uo = opts[op['opt'] % len(opts)]
        inner = []

        def hook():
            go, eng, b = self.start(op['inner'], w2)
            inner.append((go(), eng, b))
        self.seed_random(op)
        go, eng, b = self.start(op)
        uo.hook = hook
        ret = go()
        uo.hook = None
        self.kept += [b, ret]
        self.judge_trace(w, op, eng, b, ret, what)
        for r2, eng2, b2 in inner:
            self.kept += [b2, r2]
            self.ctx.fault('re-entrant trace')
            self.judge_trace(w2, op['inner'], eng2, b2, r2, what + ' inner')

    def op_conc(self, op, what):
        """Traces of several worlds interleaved by the scheduler."""
        parts = []
        self.seed_random(op)
        for q in op['parts']:
            w = self.world(q)
            go, eng, b = self.start(q)
            parts.append((w, q, eng, b, go))
        if len(set(id(p[0]) for p in parts)) < len(parts):
            raise S.Invalid('one world in two threads')
        sch = seams.Scheduler(self.ctx.lines, op['sched'])
        res = sch.run([p[4] for p in parts])
        self.ctx.fault('thread switch', len(sch.switches))
        self.ctx.state('switches', [(t, f[len(self.ctx.root):], l) for t, f, l in sch.switches])
        self.ctx.event('conc', sch.steps, len(sch.switches))
        for (w, q, eng, b, go), (st, val) in zip(parts, res):
            if st == 'exc':
                raise val
            self.kept += [b, val]
            self.judge_trace(w, q, eng, b, val, what + ' world %d' % q.get('w', 0))

    def op_query(self, op, what):
        rep = O.Report()
        for i, k in enumerate(self.ledgers):
            om, entries = self.ledgers[k]
            e, p = om.get_all_hits()
            if op.get('again'):
                e, p = om.get_all_hits()
            self.kept += [e, p]
            O.check_ledger(rep, om, entries, e.tolist(), [tuple(c) for c in p.T.tolist()],
                           'receiver %d' % i)
            self.ctx.probe('receiver queries')
            self.ctx.probe('receiver entries', len(entries))
        self.histograms(rep, op)
        take_report(self.ctx, rep, self.accept, what + ': ')
        self.ctx.event('query')

    def histograms(self, rep, op):
        for w in self.worlds:
            for path, n in w.node.walk():
                if 'hist' not in n.extra:
                    continue
                om = n.real.get_receiver_surf().get_optics_manager()
                if w.moved != self.reset_at.get(id(om), 0):
                    continue        # hits from other poses
                n.extra['recM'] = world_frame(w.node, path + (0, 0))
                check_histogram(rep, n, op.get('bins', 8), self.ctx)

    def op_reset(self, op, what):
        keys = list(self.ledgers)
        if not keys and op['r'] != 'all':
            raise S.Invalid('no receivers')
        for k in keys if op['r'] == 'all' else [keys[op['r'] % len(keys)]]:
            om, entries = self.ledgers[k]
            om.reset()
            del entries[:]
            for w in self.worlds:
                if any(S.unwrap(o) is om for o, n in w.receivers()):
                    self.reset_at[id(om)] = w.moved
        self.ctx.probe('receiver resets')
        self.ctx.event('reset')


def world_frame(root, path):
    M, n = root.T, root
    for i in path:
        n = n.kids[i]
        M = matmul(M, n.T)
    return M


def check_histogram(rep, n, bins, ctx):
    w, h = n.extra['hist']
    real = n.real
    H, xb, yb = real.histogram_hits(bins)
    surf = real.get_receiver_surf()
    e, p = surf.get_optics_manager().get_all_hits()
    tot = float(e.sum()) if len(e) else 0.
    if H.shape != (bins, bins) or len(xb) != bins + 1 or len(yb) != bins + 1:
        rep.add('C09:histogram', 'histogram shape %r for %d bins' % (H.shape, bins))
        return
    for edges, L in ((xb, w), (yb, h)):
        for i in range(bins + 1):
            if abs(float(edges[i]) - (-L/2. + L*i/bins)) > 1e-9:
                rep.add('C09:histogram', 'bin edges %r for a side of %r' % (edges.tolist(), L))
                return
    if len(e) == 0:
        if H.any():
            rep.add('C09:histogram', 'energy without hits')
        return
    # the receiver's world frame, from the mirrored tree
    want = [[0.]*bins for _ in range(bins)]
    slack = 0.
    M = n.extra.get('recM')
    for en, pt in zip(e.tolist(), p.T.tolist()):
        x, y, z = inv_pt(M, tuple(pt))
        fx, fy = (x + w/2.)/w*bins, (y + h/2.)/h*bins
        if min(abs(fx - round(fx)), abs(fy - round(fy))) < 1e-6 or not (0 <= fx < bins and 0 <= fy < bins):
            slack += en
            continue
        want[int(fx)][int(fy)] += en
    ctx.probe('histograms judged')
    if abs(float(H.sum()) - tot) > 1e-9*(1 + tot) + slack:
        rep.add('C09:histogram', 'histogram adds to %r, receiver absorbed %r' % (float(H.sum()), tot))
        return
    for i in range(bins):
        for j in range(bins):
            if abs(float(H[i][j]) - want[i][j]) > 1e-9*(1 + tot) + slack:
                rep.add('C09:histogram', 'bin %d,%d has %r, hits there absorbed %r' % (i, j, float(H[i][j]), want[i][j]))
                return


def compare_unrecorded(rep, kept, levels, op, ret, ret2):
    if len(kept) != 1:
        rep.add('C04:unrecorded', '%d bundles kept with recording off' % len(kept))
        return

    def rows(l, src=False):
        return sorted(repr((l.v[i], l.d[i], l.e[i], None if src or l.par is None else l.par[i],
                            l.uid[i] if l.uid else None)) for i in range(l.num))
    last = levels[-1]
    got = kept[0]
    if op['reps'] == 0:
        if rows(got, True) != rows(last, True):
            rep.add('C04:unrecorded', 'no bounces: kept bundle is not the source')
    elif len(levels) - 1 == op['reps'] or got.num:
        if rows(got, len(levels) == 1) != rows(last, len(levels) == 1):
            rep.add('C04:unrecorded', 'kept bundle of %d rays is not the last bounce of %d rays' % (got.num, last.num))
    a = sorted(zip(map(tuple, ret[0].T.tolist()), map(tuple, ret[1].T.tolist())))
    b = sorted(zip(map(tuple, ret2[0].T.tolist()), map(tuple, ret2[1].T.tolist())))
    if a != b:
        rep.add('C04:returned', 'recording changes the returned rays')
