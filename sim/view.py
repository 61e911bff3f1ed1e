"""
C17: the 3D scene view on a recording stand-in of the plotting library.
The real code is tracer.mayavi_ui.scene_view with everything below it.
"""
import sys
import types
import scene as S
import session as SS
import seams
from linalg import *
from common import *
from optical import *


class PlotFault(Exception):
    """A failing call of the plotting library"""


class Board(object):
    """Everything shown by one simulated scene."""
    def __init__(self):
        self.live = []
        self.fuse = None        # [call name, calls to go]
        self.calls = 0

    def call(self, name):
        self.calls += 1
        if self.fuse is not None and self.fuse[0] == name:
            self.fuse[1] -= 1
            if self.fuse[1] <= 0:
                self.fuse = None
                raise PlotFault(name)


class Shown(object):
    def __init__(self, board, kind, **data):
        self.board, self.kind, self.data = board, kind, data
        board.live.append(self)
        if kind == 'scatter':
            self.mlab_source = types.SimpleNamespace(dataset=types.SimpleNamespace(lines=None))

    def remove(self):
        self.board.call('remove')
        if self in self.board.live:
            self.board.live.remove(self)
        src = self.data.get('src')
        if src is not None and src in self.board.live:
            self.board.live.remove(src)


class Pipeline(object):
    def __init__(self, board):
        self.board = board

    def scalar_scatter(self, x, y, z, *a, **kw):
        self.board.call('scatter')
        return Shown(self.board, 'scatter', pts=[[float(q) for q in c] for c in (x, y, z)])

    def surface(self, src, **kw):
        self.board.call('surface')
        return Shown(self.board, 'lines', src=src)


class Mlab(object):
    def __init__(self, board):
        self.board = board
        self.pipeline = Pipeline(board)

    def clf(self, *a):
        del self.board.live[:]

    def mesh(self, x, y, z, **kw):
        self.board.call('mesh')
        return Shown(self.board, 'mesh', xyz=(x.copy(), y.copy(), z.copy()), kw=kw)


class MlabSceneModel(object):
    def __init__(self):
        self.board = Board()
        self.mlab = Mlab(self.board)
        self.disable_render = False
        self.background = None


class Instance(object):
    """As traits.api.Instance: made at first use, one for each owner."""
    def __init__(self, klass, args=()):
        self.klass, self.args = klass, args

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        d = obj.__dict__.setdefault('_made', {})
        if id(self) not in d:
            d[id(self)] = self.klass(*self.args)
        return d[id(self)]

    def __set__(self, obj, value):
        obj.__dict__.setdefault('_made', {})[id(self)] = value


def model_of(view):
    """The scene model of a view, whatever the view calls it."""
    found = [m for m in list(view.__dict__.get('_made', {}).values()) + list(view.__dict__.values())
             if isinstance(m, MlabSceneModel)]
    return found[0]


class HasTraits(object):
    def __init__(self, *a, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class Anything(object):
    def __init__(self, *a, **kw):
        pass


def install():
    """Put the stand-ins where the package looks for the plotting library."""
    def mod(name, **attrs):
        m = types.ModuleType(name)
        m.__path__ = []
        for k, v in attrs.items():
            setattr(m, k, v)
        sys.modules[name] = m
        if '.' in name:
            up, last = name.rsplit('.', 1)
            setattr(sys.modules[up], last, m)
    mod('traits')
    mod('traits.api', HasTraits=HasTraits, Instance=Instance, Any=Anything, Float=Anything, Range=Anything,
        Int=Anything, on_trait_change=lambda *a: (lambda f: f))
    mod('traitsui')
    mod('traitsui.api', View=Anything, Item=Anything, Group=Anything, HGroup=Anything, VGroup=Anything)
    mod('mayavi')
    mod('mayavi.tools')
    mod('mayavi.tools.mlab_scene_model', MlabSceneModel=MlabSceneModel)
    mod('mayavi.core')
    mod('mayavi.core.ui')
    mod('mayavi.core.ui.mayavi_scene', MayaviScene=Anything)
    mod('tvtk')
    mod('tvtk.pyface')
    mod('tvtk.pyface.scene_editor', SceneEditor=Anything)


def view_module():
    if 'mayavi' not in sys.modules:
        install()
    import tracer.mayavi_ui.scene_view as v
    return v


# ------------------------------------------------------------------ cases

GEO = ('rect', 'rect', 'round', 'tri', 'sphere', 'hemi', 'dish', 'fcyl')


def gen_view_obj(rng, glass, n=1.5):
    surfs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        o = {'k': rng.choice(['refl', 'rr', 'ar']), 'a': rng.choice([0.3, 0.5, 0.9, 1.])}
        if glass and rng.random() < 0.6:
            o = {'k': 'refr', 'n': n}
        if rng.random() < 0.4:
            o['wrap'] = True
        surfs.append({'g': S.gen_geom(rng, GEO), 'o': o, 'T': S.gen_T(rng, 2.), 'via': 'ctor'})
    return {'t': 'obj', 'T': S.gen_T(rng, 3.), 'via': 'st', 'surfs': surfs}


def gen_view_scene(rng, glass):
    kids = [gen_view_obj(rng, glass) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.5:
        kids.append({'t': 'asm', 'T': S.gen_T(rng, 2.), 'via': 'st', 'kids': [gen_view_obj(rng, glass)]})
    return {'n': 1.5, 'root': {'t': 'asm', 'T': S.gen_T(rng, 2.), 'via': 'st', 'kids': kids}}


def gen_view_bundle(rng, w):
    b = {'rays': S.gen_rays(rng, w.surfs(), rng.choice([1, 2, 4, 8]), 1.5, False, None)}
    for r in b['rays']:
        r[7] = 1.
        r[6] = rng.choice([1., 2., 0.5, 0.04, 0.]) if rng.random() < 0.5 else 1.
    return b


def gen_c17(rng, i, tier):
    sc = gen_view_scene(rng, False)
    w = SS.World(S.NoEnv(), sc)
    case = {'world': sc, 'b': gen_view_bundle(rng, w), 'esc': rng.choice([1., 5., 0.3]),
            'sel': rng.choice([None, None, 'even', 'strong', 'none']), 'res': rng.choice([2, 3]), 'ops': [],
            'style': rng.choice([0, 1, 1, 2]), 'dark': rng.random() < 0.08}
    limited = False
    for _ in range(rng.choice([2, 4, 8, 14])):
        r = rng.random()
        if r < 0.12:
            sc = gen_view_scene(rng, limited)
            w = SS.World(S.NoEnv(), sc)
            op = {'op': 'assembly', 'new': sc}
        elif r < 0.26:
            op = {'op': 'source', 'b': gen_view_bundle(rng, w)}
            if rng.random() < 0.12:
                op['b'] = None
        elif r < 0.4:
            path, node = rng.choice(movable(w))
            op = {'op': 'move', 'path': path, 'T': S.gen_T(rng, 2.), 'via': rng.choice(['st', 'loc', 'rot'])}
            w.move(op)
        elif r < 0.48:
            op = {'op': 'grow', 'new': gen_view_obj(rng, False)}
            grow(w, op)
        elif r < 0.55:
            op = {'op': 'drop', 'k': rng.randrange(8)}
            if not drop(w, op):
                continue
        elif r < 0.65:
            op = {'op': 'update'}
        elif r < 0.75:
            op = {'op': 'show', 'some': None if rng.random() < 0.5 else [rng.random() < 0.5 for _ in range(6)]}
            if rng.random() < 0.5:
                op['kw'] = {'resolution': rng.choice([2, 3, 5])}
                if rng.random() < 0.5:
                    op['kw']['colour'] = [0.1, 0.9, round(rng.random(), 3)]
                if rng.random() < 0.5:
                    op['kw']['opacity'] = rng.choice([0.25, 0.75])
        elif r < 0.8:
            op = {'op': 'clear'}
        elif r < 0.87:
            op = {'op': 'control', 'kw': rng.choice([{'max_iter': rng.choice([0, 1, 2, 3])}, {'min_energy': rng.choice([0.3, 0.6])},
                                                     {'max_iter': 2, 'min_energy': 0.01}, {}])}
            limited = limited or 'max_iter' in op['kw']
        else:
            op = {'op': 'plot'}
        if op['op'] in ('assembly', 'source', 'update', 'show', 'plot') and rng.random() < 0.25:
            op['fault'] = rng.choice([['mesh', rng.choice([1, 2, 3])], ['remove', rng.choice([1, 2])], ['scatter', 1],
                                      ['surface', 1], ['user', rng.randrange(6)], ['user', rng.randrange(6)],
                                      ['line', round(rng.random(), 4)]])
        case['ops'].append(op)
    return case


def grow(w, op):
    node = S.build(w.env, op['new'], w.shared)
    w.node.real.add_object(node.real, S.arr(w.env, node.T))
    # objects follow sub-assemblies or not: the order is immaterial here
    w.node.kids.append(node)
    return node


def drop(w, op):
    objs = [k for k in w.node.kids if k.kind == 'obj']
    if len(objs) < 2:
        return False
    n = objs[op['k'] % len(objs)]
    if not isinstance(w.env, S.NoEnv):
        w.node.real.get_local_objects().remove(n.real)
    w.node.kids.remove(n)
    return True


def selector_fn(kind, N):
    if kind == 'even':
        return lambda b: b.get_uid() % 2 == 0
    if kind == 'strong':
        return lambda b: b.get_energy() > 0.45
    if kind == 'none':
        return lambda b: N.zeros(b.get_num_rays(), dtype=bool)
    return None


def key(p):
    return tuple(int(round(x*1e6)) for x in p)


class View(object):
    def __init__(self, ctx, case):
        self.ctx, self.env, self.case = ctx, ctx.env, case
        self.N = ctx.env.N
        self.w = SS.World(self.env, case['world'])
        self.mark(self.w)
        self.bundle = None if case.get('dark') else S.real_bundle(self.env, case['b'])
        self.sel = selector_fn(case['sel'], self.N)
        self.drawn = {}            # id(surface) -> (surface, expected arrays)
        self.segments = None       # expected set, None when unknown
        self.meshes_known = True
        self.keep = [self.w]
        kw = {} if self.sel is None else {'ray_selector': self.sel}
        self.view = view_module().TracerScene(self.w.node.real, self.bundle, case['esc'], **kw)
        self.model = model_of(self.view)
        self.board = self.model.board
        self.control = self.view.trace_control()
        self.draw_all(self.w)
        self.plotted()

    def mark(self, w):
        for k, s in enumerate(w.surfs()):
            self.mark_one(k, s.real, s.g)

    def mark_one(self, k, real, g):
        """Annotate a surface with its own looks, some, all or none of them."""
        style = self.case.get('style', 0)
        small = max([0.] + [v for q, v in g.items() if q in ('w', 'h', 'R', 'D')]) < 1.2
        if not (small and (k + style) % 3 == 2):
            real.resolution = self.case['res'] + k % 2
        if style and (k + style) % 2:
            real.colour = (0.2, 0.1*(k % 7), 0.7)
        if style and (k + style) % 3 == 0:
            real.opacity = 0.1 + 0.1*(k % 5)

    def draw(self, s, kw={}):
        """Expected mesh of a surface where it is now."""
        N = self.N
        own = s.real.__dict__
        res = own.get('resolution', kw.get('resolution', 10))
        looks = (tuple(own.get('colour', kw.get('colour', (0.5, 0.5, 0.5)))), own.get('opacity', kw.get('opacity', 1.)))
        x, y, z = s.real.get_geometry_manager().mesh(res)
        P = N.array([x.ravel(), y.ravel(), z.ravel()])
        Mx = N.array([list(r) for r in s.M])
        G = N.dot(Mx[:3,:3], P) + Mx[:3,3][:,None]
        self.drawn[id(s.real)] = (s.real, G, looks)

    def draw_all(self, w):
        self.drawn = {}
        for s in w.surfs():
            self.draw(s)
        self.meshes_known = True

    def plotted(self):
        """Expected segments, by a separate trace."""
        N = self.N
        if self.bundle is None:
            self.segments = set()
            return
        eng = self.env.TracerEngine(self.w.node.real)
        eng.ray_tracer(self.bundle, self.control[0], self.control[1])
        t = eng.tree
        out = set()
        for L in range(t.num_bunds()):
            b = t[L]
            v, d, e = b.get_vertices().T.tolist(), b.get_directions().T.tolist(), b.get_energy().tolist()
            shown = [x != 0 for x in e]
            if self.sel is not None:
                shown = [a and bool(q) for a, q in zip(shown, self.sel(b).tolist())]
            kids = [[] for _ in v]
            if L + 1 < t.num_bunds():
                for p, x in zip(t[L + 1].get_parents().tolist(), t[L + 1].get_vertices().T.tolist()):
                    kids[int(p)].append(x)
            for i in range(len(v)):
                if shown[i]:
                    for q in kids[i] or [along(v[i], d[i], self.case['esc'])]:
                        out.add((key(v[i]), key(q)))
        self.segments = out

    def judge(self, what):
        ctx, N = self.ctx, self.N

        def bad(cls, msg):
            ctx.violate('C17:' + cls, '%s: %s' % (what, msg))
        if self.model.disable_render:
            bad('render', 'rendering is left disabled')
            return
        if tuple(self.view.trace_control()) != tuple(self.control):
            bad('control', 'trace control is %r, was set to %r' % (self.view.trace_control(), self.control))
            return
        if self.meshes_known:
            live = [s for s in self.board.live if s.kind == 'mesh']
            left = list(self.drawn.values())
            for m in live:
                G = N.array([c.ravel() for c in m.data['xyz']])
                hit = None
                shown = (tuple(m.data['kw'].get('color') or ()), m.data['kw'].get('opacity'))
                for k, (surf, W, looks) in enumerate(left):
                    if G.shape == W.shape and (G.size == 0 or abs(G - W).max() < 1e-7*max(1., abs(W).max())):
                        if hit is None or looks == shown:
                            hit = k
                if hit is None:
                    bad('mesh', 'a mesh of %d points is shown where no surface was drawn (%d meshes, %d surfaces)' % (
                        G.shape[1], len(live), len(self.drawn)))
                    return
                if left[hit][2] != shown:
                    bad('looks', 'a mesh is shown with colour and opacity %r, its surface asks for %r' % (shown, left[hit][2]))
                    return
                del left[hit]
            if left:
                bad('mesh', '%d of %d drawn surfaces have no mesh' % (len(left), len(self.drawn)))
                return
            ctx.probe('meshes compared', len(live))
        if self.segments is not None:
            lines = [s for s in self.board.live if s.kind == 'lines']
            got = set()
            for l in lines:
                src = l.data['src']
                x, y, z = src.data['pts']
                con = src.mlab_source.dataset.lines
                if con is None:
                    bad('lines', 'points shown without connections')
                    return
                for a, b in N.asarray(con).tolist():
                    a, b = int(a), int(b)
                    if not (0 <= a < len(x) and 0 <= b < len(x)):
                        bad('lines', 'a segment connects points %d and %d of %d' % (a, b, len(x)))
                        return
                    got.add((key((x[a], y[a], z[a])), key((x[b], y[b], z[b]))))
            extra, lost = near(got, self.segments), near(self.segments, got)
            if extra:
                bad('lines', 'a segment from %r to %r is shown that no ray took' % unkey(extra[0]))
                return
            if lost:
                bad('lines', 'the segment from %r to %r is not shown' % unkey(lost[0]))
                return
            if len(lines) > 1:
                bad('lines', '%d plots of rays at once' % len(lines))
                return
            ctx.probe('segments compared', len(got))


def near(a, b):
    """Members of a that are not in b, up to rounding of the keys."""
    out = []
    for s in sorted(a - b):
        if not any(max(abs(s[i][k] - t[i][k]) for i in (0, 1) for k in range(3)) <= 2 + 1e-8*max(abs(c) for q in s for c in q)
                   for t in b):
            out.append(s)
    return out


def unkey(s):
    return tuple(tuple(c*1e-6 for c in p) for p in s)


def run_c17(ctx, case):
    env, N = ctx.env, ctx.env.N
    if not case['b']['rays']:
        raise S.Invalid('no rays')
    u = View(ctx, case)
    u.judge('new view')
    for i, op in enumerate(case['ops']):
        if ctx.violations:
            return
        what = 'op %d (%s)' % (i, op['op'])
        f = op.get('fault')
        k = op['op']
        done = failed = False
        neww = None
        if k == 'move':
            u.w.move(op)
        elif k == 'grow':
            n = grow(u.w, op)
            for j, q in enumerate(n.kids):
                u.mark_one(j + i, q.real, q.g)
        elif k == 'drop':
            if not drop(u.w, op):
                raise S.Invalid('last object')
        elif k == 'control':
            u.view.set_trace_control(**op['kw'])
            u.control = (op['kw'].get('max_iter', u.control[0]), op['kw'].get('min_energy', u.control[1]))
        elif k == 'clear':
            u.view.clear_scene()
            u.drawn = {}
            u.meshes_known = True
            u.segments = set()
            u.cleared = True
        else:
            if k == 'assembly':
                neww = SS.World(env, op['new'])
                u.mark(neww)
                u.keep.append(neww)
                act = lambda: u.view.set_assembly(neww.node.real)
            elif k == 'source':
                if op['b'] is not None and not op['b']['rays']:
                    raise S.Invalid('no rays')
                u.bundle = None if op['b'] is None else S.real_bundle(env, op['b'])
                act = lambda: u.view.set_source(u.bundle)
            elif k == 'update':
                act = u.view.update_surfaces
            elif k == 'plot':
                act = u.view.plot_ray_trace
            else:
                if u.drawn_differs():
                    act = lambda: None     # parts came or went: only set_assembly or update_surfaces may follow
                    op = dict(op, some=[])
                ids = None
                if op['some'] is not None:
                    ids = [id(s.real) for q, s in enumerate(u.w.surfs()) if op['some'] and op['some'][q % len(op['some'])]]
                    act = lambda: u.view.show_assembly(update=ids, **show_kw(op))
                else:
                    act = lambda: u.view.show_assembly(**show_kw(op))
            fuse = None
            if f and f[0] == 'user':
                opts = (neww or u.w).optics()
                if opts:
                    fuse = opts[f[1] % len(opts)]
                    fuse.fuse = 1
            elif f and f[0] != 'line':
                u.board.fuse = list(f)
            try:
                if f and f[0] == 'line' and k in ('plot', 'source') and u.bundle is not None:
                    engine_fault(ctx, u, f[1], act)
                else:
                    act()
            except (PlotFault, seams.UserFault, seams.SimInterrupt) as e:
                failed = True
                ctx.fault({'PlotFault': 'plotting call failed', 'UserFault': 'user callable raised',
                           'SimInterrupt': 'interrupt'}[type(e).__name__])
            if fuse is not None:
                fuse.fuse = None
            u.board.fuse = None
            u.after(k, op, failed, neww, ids if k == 'show' else None)
        u.judge(what + (' (failed)' if failed else ''))
        ctx.event(what, failed, len(u.board.live))
        ctx.state(k, f and f[0], failed, len(u.drawn), None if u.segments is None else len(u.segments))
        ctx.probe('view actions')


def show_kw(op):
    kw = dict(op.get('kw', {}))
    if 'colour' in kw:
        kw['colour'] = tuple(kw['colour'])
    return kw


def engine_fault(ctx, u, frac, act):
    """Interrupt the trace inside an action, at a line of the engine or below."""
    eng = u.env.TracerEngine(u.w.node.real)
    _, log = seams.record_lines(ctx.lines, eng.ray_tracer, u.bundle, u.control[0], u.control[1])
    at = int(frac*len(log))
    count = [0]

    def hook(frame):
        if 'mayavi_ui' in frame.f_code.co_filename:
            return
        count[0] += 1
        # the constructor of the engine comes before its trace
        if count[0] == at + 2:
            raise seams.SimInterrupt('simulated')
    ctx.lines.run(hook, act)


def drawn_differs(self):
    return set(self.drawn) != set(id(s.real) for s in self.w.surfs())


def after(self, k, op, failed, neww, ids):
    if k == 'assembly':
        self.w = neww
        if failed:
            self.meshes_known = False
            self.segments = None if False else self.segments
        else:
            self.draw_all(self.w)
    elif k in ('source', 'plot'):
        if failed:
            self.segments = None
        else:
            self.plotted()
    elif failed:
        self.meshes_known = False
    elif k == 'update':
        if self.meshes_known:
            cur = dict((id(s.real), s) for s in self.w.surfs())
            for i in list(self.drawn):
                if i not in cur:
                    del self.drawn[i]
            if getattr(self, 'cleared', False):
                self.meshes_known = False      # whether cleared ones are drawn again is left open
            else:
                for i in cur:
                    if i not in self.drawn:
                        self.draw(cur[i])
    elif k == 'show' and self.meshes_known:
        for s in self.w.surfs():
            if ids is None or id(s.real) in ids:
                self.draw(s, op.get('kw', {}))
    if k == 'assembly' or (k == 'show' and ids is None and not failed):
        self.cleared = False


View.drawn_differs = drawn_differs
View.after = after
