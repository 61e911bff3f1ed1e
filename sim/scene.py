"""
Scenes: JSON specs, their random generation, and building of the real tracer
objects side by side with a mirrored tree of plain-Python nodes.
"""
import math
import model as M
from seams import UserFault
from linalg import *


class Invalid(Exception):
    """The case refers to something that does not exist (only after shrinking)."""


# ---------------------------------------------------------------- building

class Node(object):
    """One node of the mirrored hierarchy: assembly, object or surface."""
    def __init__(self, kind, T, real=None, kids=(), g=None, o=None, skip=False,
                 compound=None, name=''):
        self.kind, self.T, self.real = kind, T, real
        self.kids = list(kids)
        self.g, self.o, self.skip, self.compound, self.name = g, o, skip, compound, name
        self.extra = {}

    def walk(self, path=()):
        yield path, self
        for i, k in enumerate(self.kids):
            for x in k.walk(path + (i,)):
                yield x

    def at(self, path):
        n = self
        for i in path:
            if i >= len(n.kids):
                raise Invalid('no node at %r' % (path,))
            n = n.kids[i]
        return n


def flatten(node, container=I4, obj=None, out=None):
    """All surfaces of a mirrored tree with their world frames (list of M.Surf)."""
    top = out is None
    if top:
        out = []
    W = matmul(container, node.T)
    if node.kind == 'surf':
        out.append(M.Surf(node.g, node.o, W, id(obj), node.real, node.compound,
                          obj.skip if obj is not None else False, node.name))
    else:
        for k in node.kids:
            flatten(k, W, node if node.kind == 'obj' else obj, out)
    return out


class Dummy(object):
    """Stands for anything real while a case is being generated."""
    def __getattr__(self, name):
        return Dummy()

    def __call__(self, *a, **k):
        return Dummy()

    def __getitem__(self, i):
        return Dummy()

    def __contains__(self, x):
        return True

    def __iter__(self):
        while True:
            yield Dummy()

    def __len__(self):
        return 0


class NoEnv(Dummy):
    """Environment for building only the mirrored tree (generation)."""


class Env(object):
    """The real package, as imported from the tree under test."""
    def __init__(self):
        import numpy as N
        import tracer.ray_bundle, tracer.tracer_engine, tracer.surface
        import tracer.object, tracer.assembly, tracer.flat_surface
        import tracer.sphere_surface, tracer.cylinder, tracer.paraboloid
        import tracer.triangular_face, tracer.boundary_shape
        import tracer.optics_callables, tracer.sources, tracer.spatial_geometry
        from tracer.models import one_sided_mirror, homogenizer, tau_minidish
        from tracer.models import PETAL_dish, spherical_lens, homogenized_local_receiver
        self.hlr = homogenized_local_receiver
        from tracer.models import triangulated_surface, heliostat_field
        self.N = N
        t = tracer
        self.RayBundle = t.ray_bundle.RayBundle
        self.concatenate_rays = t.ray_bundle.concatenate_rays
        self.TracerEngine = t.tracer_engine.TracerEngine
        self.Surface = t.surface.Surface
        self.AssembledObject = t.object.AssembledObject
        self.Assembly = t.assembly.Assembly
        self.flat, self.sph, self.cyl = t.flat_surface, t.sphere_surface, t.cylinder
        self.par, self.tri, self.bnd = t.paraboloid, t.triangular_face, t.boundary_shape
        self.opt, self.sources, self.sp = t.optics_callables, t.sources, t.spatial_geometry
        self.osm, self.hom, self.minidish = one_sided_mirror, homogenizer, tau_minidish
        self.petal, self.lens, self.tsurf = PETAL_dish, spherical_lens, triangulated_surface
        self.field = heliostat_field


def arr(env, T):
    return given(env, env.N.array([list(r) for r in T]))


def given(env, a, kind='frame'):
    """Note an array handed to the package by the caller."""
    log = getattr(env, 'given', None)
    if isinstance(log, list):
        log.append((kind, a))
    return a


def real_bound(env, b):
    if b is None:
        return None
    T = T4(b.get('T'))
    loc = given(env, env.N.array([T[i][3] for i in range(3)]))
    rot = arr(env, [r[:3] for r in T[:3]])
    if b['k'] == 'sphere':
        return env.bnd.BoundarySphere(location=loc, radius=b['R'])
    if b['k'] == 'cyl':
        return env.bnd.BoundaryCylinder(diameter=b['D'], location=loc, rotation=rot)
    return env.bnd.BoundaryPlane(location=loc, rotation=rot)


def real_geom(env, g):
    k = g['k']
    if k == 'flat':
        return env.flat.FlatGeometryManager()
    if k == 'rect':
        return env.flat.RectPlateGM(g['w'], g['h'])
    if k == 'round':
        return env.flat.RoundPlateGM(g['R'])
    if k == 'tri':
        return env.tri.TriangularFace(given(env, env.N.array(g['verts'], dtype=float).T, 'data'))
    if k == 'sphere':
        return env.sph.SphericalGM(g['R'])
    if k == 'hemi':
        return env.sph.HemisphereGM(g['R'])
    if k == 'cut':
        return env.sph.CutSphereGM(g['R'], real_bound(env, g.get('bound')))
    if k == 'parab':
        return env.par.Paraboloid(g['a'], g['b'])
    if k == 'dish':
        return env.par.ParabolicDishGM(g['D'], g['f'])
    if k == 'hex':
        return env.par.HexagonalParabolicDishGM(g['D'], g['f'])
    if k == 'icyl':
        return env.cyl.InfiniteCylinder(g['D'])
    if k == 'fcyl':
        return env.cyl.FiniteCylinder(g['D'], g['h'])
    raise KeyError(k)


class UserOptics(object):
    """A user-written optics callable around one of the package's own."""
    def __init__(self, inner):
        self.inner = inner
        self.calls = 0
        self.fuse = None        # raise at this many calls from now
        self.late = False       # ... after the inner callable did its work
        self.hook = None        # run once, inside the next call

    def __call__(self, geometry, rays, selector):
        self.calls += 1
        fire = False
        if self.fuse is not None:
            self.fuse -= 1
            fire = self.fuse <= 0
        if fire and not self.late:
            self.fuse = None
            raise UserFault('simulated')
        if self.hook is not None:
            hook, self.hook = self.hook, None
            hook()
        r = self.inner(geometry, rays, selector)
        if fire:
            self.fuse = None
            raise UserFault('simulated')
        return r

    def __getattr__(self, name):
        if name == 'inner':
            raise AttributeError(name)
        return getattr(self.inner, name)


_USURF = {}


def user_surface(env):
    """A user-written surface class, whose protocol methods can be made to fail."""
    base = env.Surface
    if isinstance(env, NoEnv):
        return base
    if base not in _USURF:
        class UserSurface(base):
            fuse = None     # [method name, calls to go]

            def _burn(self, name):
                f = self.fuse
                if f is not None and f[0] == name:
                    f[1] -= 1
                    if f[1] <= 0:
                        self.fuse = None
                        raise UserFault('simulated')

            def register_incoming(self, b):
                self._burn('register')
                return base.register_incoming(self, b)

            def select_rays(self, idxs):
                self._burn('select')
                return base.select_rays(self, idxs)

            def get_outgoing(self):
                self._burn('outgoing')
                return base.get_outgoing(self)

            def done(self):
                self._burn('done')
                return base.done(self)
        _USURF[base] = UserSurface
    return _USURF[base]


def unwrap(opt):
    return opt.inner if isinstance(opt, UserOptics) else opt


def real_optics(env, o, shared):
    r = inner_optics(env, o, shared)
    return UserOptics(r) if o.get('wrap') else r


def inner_optics(env, o, shared):
    key = o.get('share')
    if key is not None and key in shared:
        return shared[key]
    k = o['k']
    if k == 'refl':
        r = env.opt.Reflective(o['a'])
    elif k == 'pm':
        r = env.opt.perfect_mirror
    elif k == 'rr':
        r = env.opt.ReflectiveReceiver(o['a'])
    elif k == 'ar':
        r = env.opt.AbsorberReflector(o['a'])
    elif k == 'refr':
        n0 = o.get('n0', 1.)
        r = env.opt.RefractiveHomogenous(o['n'], n0) if o.get('swap') else \
            env.opt.RefractiveHomogenous(n0, o['n'])
    elif k == 'lamb':
        r = env.opt.LambertianReflector(o['a'])
    elif k == 'lr':
        r = env.opt.LambertianReceiver(o['a'])
    else:
        raise KeyError(k)
    if key is not None:
        shared[key] = r
    return r


def loc_rot(env, T):
    return given(env, env.N.array([T[i][3] for i in range(3)])), arr(env, [r[:3] for r in T[:3]])


def apply_T(env, real, T, via):
    """Give a real assembly, object or surface its frame."""
    if via == 'lr':
        loc, rot = loc_rot(env, T)
        real.set_location(loc)
        real.set_rotation(rot)
    elif via == 'rl':
        loc, rot = loc_rot(env, T)
        real.set_rotation(rot)
        real.set_location(loc)
    else:
        real.set_transform(arr(env, T))


WALLS = (('y270', 1, 0), ('y90', -1, 0), ('x90', 0, 1), ('x270', 0, -1))


def homog_nodes(real, s):
    x, y, h, a = s['x'], s['y'], s['h'], 1. - s['eff']
    kids = []
    for robj, (rot, sx, sy) in zip(real.get_local_objects(), WALLS):
        T = T4({'R': rot, 'p': [sx*x/2., sy*y/2., h/2.]})
        g = {'k': 'rect', 'w': h if sx else x, 'h': y if sx else h}
        sn = Node('surf', I4, robj.get_surfaces()[0], g=g, o={'k': 'ar', 'a': a},
                  name='homogenizer wall')
        kids.append(Node('obj', T, robj, [sn], skip=True))
    return kids


def recv_node(env, front, obj, T, w, h, a):
    cid = id(obj)
    fn = Node('surf', I4, front, g={'k': 'rect', 'w': w, 'h': h}, o={'k': 'rr', 'a': a},
              compound=cid, name='receiver front')
    back = next(s for s in obj.get_surfaces() if s is not front)
    bn = Node('surf', T4({'p': [0., 0., -1e-10]}), back, g={'k': 'rect', 'w': w, 'h': h},
              o={'k': 'refl', 'a': 1.}, compound=cid, name='receiver back')
    return Node('obj', T, obj, [fn, bn], skip=True)


def solar_vec(az, el):
    s = math.sin(el)
    return (-math.sin(az)*abs(s), -math.cos(az)*abs(s), math.cos(el))


def aim_T(pos, h, az, el):
    """Frame of an aimed heliostat in its field."""
    sun = solar_vec(az, el)
    tow = unit((-pos[0], -pos[1], h - pos[2]))
    n = unit(add(sun, tow))
    a, e = math.atan2(n[1], n[0]), math.acos(max(-1., min(1., n[2])))
    Rz = homog(rot_axis((0, 0, 1), a), (0, 0, 0))
    Ry = homog(rot_axis((0, 1, 0), e), (0, 0, 0))
    R = matmul(Rz, Ry)
    return homog([r[:3] for r in R[:3]], pos)


def build_surf(env, q, shared):
    Tq = T4(q.get('T'))
    loc, rot = loc_rot(env, Tq)
    cls = user_surface(env) if q.get('usurf') else env.Surface
    if q.get('via') == 'set':
        real = cls(real_geom(env, q['g']), real_optics(env, q['o'], shared))
        real.set_location(loc)
        real.set_rotation(rot)
    else:
        real = cls(real_geom(env, q['g']), real_optics(env, q['o'], shared), location=loc, rotation=rot)
    return Node('surf', Tq, real, g=q['g'], o=q['o'], name=q['g']['k'])


def build(env, s, shared=None):
    """Build a node spec: real object(s) and mirrored Node."""
    if shared is None:
        shared = {}
    N = env.N
    t, T, via = s['t'], T4(s.get('T')), s.get('via', 'st')
    if t == 'asm':
        kids = [build(env, k, shared) for k in s['kids']]
        objs = [k for k in kids if k.kind == 'obj']
        subs = [k for k in kids if k.kind == 'asm']
        if via == 'ctor':
            loc, rot = loc_rot(env, T)
            real = env.Assembly([k.real for k in objs], [k.real for k in subs], loc, rot)
        elif via == 'add':
            real = env.Assembly()
            real.set_transform(arr(env, T))
            for k in kids:
                if k.kind == 'obj':
                    real.add_object(k.real, arr(env, k.T))
                else:
                    real.add_assembly(k.real, arr(env, k.T))
        else:
            real = env.Assembly(objects=[k.real for k in objs],
                                subassemblies=[k.real for k in subs])
            apply_T(env, real, T, via)
        node = Node('asm', T, real, kids)
        node.extra['plain'] = True
        return node
    if t == 'obj':
        kids = [build_surf(env, q, shared) for q in s['surfs']]
        if via == 'ctor':
            real = env.AssembledObject([k.real for k in kids], None, arr(env, T))
        elif via == 'add':
            real = env.AssembledObject()
            real.set_transform(arr(env, T))
            for k in kids:
                real.add_surface(k.real)
        else:
            real = env.AssembledObject(surfs=[k.real for k in kids])
            apply_T(env, real, T, via)
        node = Node('obj', T, real, kids)
        node.extra['plain'] = True
        return node
    if t == 'mirror1':
        real = env.osm.rect_one_sided_mirror(s['w'], s['h'], *([] if s.get('bare') else [s['a']]))
        apply_T(env, real, T, via)
        sn = Node('surf', I4, real.get_surfaces()[0], g={'k': 'rect', 'w': s['w'], 'h': s['h']},
                  o={'k': 'ar', 'a': s['a']}, name='one-sided mirror')
        return Node('obj', T, real, [sn], skip=True)
    if t == 'recv1':
        pair = env.osm.one_sided_receiver(s['w'], s['h'], *([] if s.get('bare') else [s['a']]))
        front, real = pair[0], pair[1]
        apply_T(env, real, T, via)
        return recv_node(env, front, real, T, s['w'], s['h'], s['a'])
    if t == 'lens':
        return build_lens(env, s, T, via)
    if t == 'tri':
        return build_tri(env, s, T, via, shared)
    if t == 'homog':
        real = env.hom.rect_homogenizer(s['x'], s['y'], s['h'], s['eff'])
        apply_T(env, real, T, via)
        return Node('asm', T, real, homog_nodes(real, s))
    if t in ('minidish', 'petal', 'hlr'):
        if t == 'hlr':
            main = env.Surface(real_geom(env, s['g']), real_optics(env, s['o'], shared))
            dims = s['side'] if s.get('bare') else (s['side'], s['side']*s['aspect'])
            real = env.hlr.HomogenizedLocalReceiver(main, s['pos'], dims, s['depth'], s['heff'])
        else:
            cls = env.minidish.MiniDish if t == 'minidish' else env.petal.PETAL
            real = cls(s['D'], s['f'], s['deff'], s['pos'], s['side'], s['depth'], s['heff'],
                       *([] if s.get('bare') else [s['aspect']]))
        apply_T(env, real, T, via)
        frame = T4({'R': 'x180', 'p': [0., 0., s['pos']]})
        w, h = s['side'], s['side']*s['aspect']
        front = real.get_receiver_surf()
        robj = next(o for o in real.get_local_objects() if front in o.get_surfaces())
        rec = recv_node(env, front, robj, frame, w, h, 1.)
        mr = real.get_main_reflector()
        mobj = next(o for o in real.get_local_objects() if mr in o.get_surfaces())
        if t == 'hlr':
            g, o = s['g'], s['o']
        else:
            g = {'k': 'dish' if t == 'minidish' else 'hex', 'D': s['D'], 'f': s['f']}
            o = {'k': 'refl', 'a': 1. - s['deff']}
        dish = Node('obj', I4, mobj, [Node('surf', I4, mr, g=g, o=o, name='main reflector')])
        hreal = real.get_homogenizer()
        hn = Node('asm', frame, hreal,
                  homog_nodes(hreal, {'x': w, 'y': h, 'h': s['depth'], 'eff': s['heff']}))
        node = Node('asm', T, real, [rec, dish, hn])
        node.extra['hist'] = (w, h)
        return node
    if t == 'field':
        real = env.field.HeliostatField(given(env, N.array(s['pos'], dtype=float), 'data'), s['w'], s['h'], s['a'], s['th'])
        apply_T(env, real, T, via)
        kids = []
        for p, robj in zip(s['pos'], real.get_heliostats()):
            Tp = T4({'R': 'x180', 'p': p})
            sn = Node('surf', I4, robj.get_surfaces()[0],
                      g={'k': 'rect', 'w': s['w'], 'h': s['h']},
                      o={'k': 'ar', 'a': s['a']}, name='heliostat')
            kids.append(Node('obj', Tp, robj, [sn], skip=True))
        node = Node('asm', T, real, kids)
        if s.get('aim'):
            real.aim_to_sun(*s['aim'])
            for p, k in zip(s['pos'], kids):
                k.T = aim_T(p, s['th'], *s['aim'])
        return node
    raise KeyError(t)


def lens_geometry(s):
    """(front, back, cylinder or None): (geom, T4) each, for the prescription."""
    D, depth, R1, R2, n = s['D'], s['depth'], s['R1'], s['R2'], s['n']
    i1 = 0. if R1 is None else 1./R1
    i2 = 0. if R2 is None else 1./R2
    f = 1./((n - 1.)*(i1 - i2 + depth*(n - 1.)*i1*i2/n))
    pd = f*depth*(n - 1.)/n*i1
    out, rims = [], []
    for R, top, front in ((R1, pd + depth, True), (R2, pd, False)):
        if R is None:
            if front:
                T, z = T4({'p': [0., 0., top]}), top
            else:
                T, z = T4({'R': 'x180'}), 0.
            out.append(({'k': 'round', 'R': D/2.}, T))
            rims.append(z)
            continue
        sag = math.sqrt(R*R - D*D/4.)
        if R > 0:
            b = {'k': 'plane', 'T': {'p': [0., 0., sag]}}
            rim = top - R + sag
        else:
            b = {'k': 'plane', 'T': {'R': 'x180', 'p': [0., 0., -sag]}}
            rim = top - R - sag
        out.append(({'k': 'cut', 'R': abs(R), 'bound': b}, T4({'p': [0., 0., top - R]})))
        rims.append(rim)
    h = rims[0] - rims[1]
    cyl = None
    if h > 0:
        cyl = ({'k': 'fcyl', 'D': D, 'h': h}, T4({'p': [0., 0., (rims[0] + rims[1])/2.]}))
    return out[0], out[1], cyl


def build_lens(env, s, T, via):
    a = arr(env, T) if via == 'ctor' else None
    R1 = s.get('flat1', 0) if s['R1'] is None else s['R1']
    R2 = s.get('flat2', 0) if s['R2'] is None else s['R2']
    inf = {'inf': float('inf'), '-inf': float('-inf'), 'none': None}
    R1, R2 = [inf[r] if isinstance(r, str) else r for r in (R1, R2)]
    real = env.lens.SphericalLens(s['D'], s['depth'], R1, R2, s['n'], transform=a)
    if via != 'ctor':
        apply_T(env, real, T, via)
    front, back, cyl = lens_geometry(s)
    kids = []
    for (part, name), rs in zip([(front, 'lens front'), (back, 'lens back')] +
                                ([(cyl, 'lens rim')] if cyl else []), real.get_surfaces()):
        kids.append(Node('surf', part[1], rs, g=part[0], o={'k': 'refr', 'n': s['n']}, name=name))
    return Node('obj', T, real, kids)


def build_tri(env, s, T, via, shared):
    N = env.N
    opt = real_optics(env, s['o'], shared)
    a = arr(env, T) if via == 'ctor' else None
    real = env.tsurf.TriangulatedSurface(given(env, N.array(s['verts'], dtype=float), 'data'),
                                         given(env, N.array(s['faces']), 'data'), opt, transform=a)
    if via != 'ctor':
        apply_T(env, real, T, via)
    kids, rs = [], real.get_surfaces()
    for f in s['faces']:
        v0, v1, v2 = [tuple(s['verts'][i]) for i in f]
        e1, e2 = sub(v1, v0), sub(v2, v0)
        if norm(e1) <= 1e-8 or norm(e2) <= 1e-8:
            continue
        z = cross(e1, e2)
        if norm(z) <= 1e-9:
            continue
        x, z = unit(e1), unit(z)
        y = cross(z, x)
        R = ((x[0], y[0], z[0]), (x[1], y[1], z[1]), (x[2], y[2], z[2]))
        g = {'k': 'tri', 'verts': [[dot(e1, x), dot(e1, y), 0.], [dot(e2, x), dot(e2, y), 0.]]}
        kids.append(Node('surf', homog(R, v0), None, g=g, o=s['o'], name='triangle'))
    if len(rs) == len(kids):
        for k, r in zip(kids, rs):
            k.real = r
    else:
        for k in kids:
            k.real = rs[0] if len(rs) else Dummy()
    node = Node('obj', T, real, kids)
    node.extra['nfaces'] = len(kids)
    return node


RESHAPE = {'radius': ('sphere', 'hemi', 'cut'), 'verts': ('tri',)}


def real_bundle(env, b):
    """b: {"rays": [[vx,vy,vz,dx,dy,dz,e,n]...], "int":bool, "noref":bool, "extra":bool}"""
    N = env.N
    rays = b['rays']
    n = len(rays)
    v = N.array([r[0:3] for r in rays], dtype=float).reshape(n, 3).T.copy()
    d = N.array([r[3:6] for r in rays], dtype=float).reshape(n, 3).T.copy()
    e = N.array([r[6] for r in rays], dtype=float)
    ri = N.array([r[7] for r in rays], dtype=float)
    uid = N.arange(n) if 'uid' not in b else N.array(b['uid'])
    if b.get('int'):
        if (v == N.round(v)).all() and (d == N.round(d)).all():
            v, d = v.astype(int), d.astype(int)
            if (e == N.round(e)).all():
                e = e.astype(int)
    if b.get('fortran'):
        v, d = N.asfortranarray(v), N.asfortranarray(d)
    kw = {} if b.get('nouid') else dict(uid=uid)
    if not b.get('noref'):
        kw['ref_index'] = ri
    if b.get('setters'):
        rb = env.RayBundle(**kw)
        rb.set_vertices(v)
        rb.set_directions(d)
        rb.set_energy(e)
        return rb
    return env.RayBundle(vertices=v, directions=d, energy=e, **kw)


# -------------------------------------------------------------- generation

def rnd(rng, lo, hi):
    """A float with a short decimal form (readable replay files)."""
    return round(rng.uniform(lo, hi), 4)


def gen_rot(rng):
    if rng.random() < 0.35:
        return rng.choice(sorted(NAMED))
    ax = [rnd(rng, -1, 1) for _ in range(3)]
    if norm(ax) < 0.2:
        ax = [0., 0., 1.]
    if rng.random() < 0.06:
        return ax + [10**rng.uniform(-8, -2)]
    return ax + [rnd(rng, -3.2, 3.2)]


def gen_T(rng, spread):
    r = rng.random()
    if r < 0.12:
        return None
    if r > 0.985 and spread >= 3.:
        spread *= rng.choice([20., 200.])
    if r < 0.3:
        return {'R': 'I', 'p': [rnd(rng, -spread, spread) for _ in range(3)]}
    if r < 0.4:
        return {'R': gen_rot(rng), 'p': [float(rng.randint(-2, 2)) for _ in range(3)]}
    return {'R': gen_rot(rng), 'p': [rnd(rng, -spread, spread) for _ in range(3)]}


GEOMS = ('flat', 'rect', 'rect', 'round', 'tri', 'sphere', 'hemi', 'cut', 'parab',
         'dish', 'hex', 'icyl', 'fcyl')


def gen_geom(rng, kinds=GEOMS):
    k = rng.choice(kinds)
    q = rng.random()
    big = 1. if q < 0.92 else 0.03 if q < 0.96 else 25.
    r = lambda lo, hi: round(big*rng.uniform(lo, hi), 4)
    if k == 'flat':
        return {'k': k}
    if k == 'rect':
        return {'k': k, 'w': r(0.4, 6), 'h': r(0.4, 6)}
    if k == 'round':
        return {'k': k, 'R': r(0.3, 3)}
    if k == 'tri':
        u = [r(0.5, 3), r(-1, 1)]
        a = rng.uniform(0.4, 2.4)
        L = big*rng.uniform(0.6, 3)
        b = math.atan2(u[1], u[0]) + a
        return {'k': k, 'verts': [[u[0], u[1], 0.], [round(L*math.cos(b), 4), round(L*math.sin(b), 4), 0.]]}
    if k in ('sphere', 'hemi'):
        return {'k': k, 'R': r(0.3, 3)}
    if k == 'cut':
        R = r(0.5, 3)
        b = rng.choice(['none', 'sphere', 'cyl', 'plane', 'plane', 'cyl'])
        if b == 'none':
            return {'k': k, 'R': R}
        T = {'R': gen_rot(rng), 'p': [round(rng.uniform(-0.6, 0.6)*R, 4) for _ in range(3)]}
        if rng.random() < 0.15:
            T = {'R': 'I', 'p': [0., 0., 0.]}
        bd = {'k': b, 'T': T}
        if b == 'sphere':
            bd['R'] = round(R*rng.uniform(0.5, 1.3), 4)
            T['R'] = 'I'
        if b == 'cyl':
            bd['D'] = round(2*R*rng.uniform(0.3, 0.95), 4)
        return {'k': k, 'R': R, 'bound': bd}
    if k == 'parab':
        return {'k': k, 'a': rnd(rng, 0.4, 3), 'b': rnd(rng, 0.4, 3)}
    if k in ('dish', 'hex'):
        return {'k': k, 'D': r(0.8, 5), 'f': r(0.3, 3)}
    if k == 'icyl':
        return {'k': k, 'D': r(0.6, 4)}
    return {'k': k, 'D': r(0.6, 4), 'h': r(0.5, 5)}


ABS = (0., 0.1, 0.25, 0.5, 0.9, 1.)


def gen_opt(rng, kinds, n):
    k = rng.choice(kinds)
    if k == 'pm':
        return {'k': k}
    if k == 'refr':
        o = {'k': k, 'n': n}
        if rng.random() < 0.3:
            o['swap'] = True
        return o
    return {'k': k, 'a': rng.choice(ABS) if rng.random() < 0.7 else rnd(rng, 0, 1)}


OPTS = ('refl', 'refl', 'pm', 'rr', 'rr', 'ar', 'refr', 'refr', 'refr')
OPTS_RAND = OPTS + ('lamb', 'lr')
VIAS = ('st', 'ctor', 'add', 'lr', 'rl')
MODELS = ('mirror1', 'recv1', 'lens', 'lens', 'tri', 'homog', 'minidish', 'petal', 'field', 'hlr')


def gen_obj(rng, kinds, opts, n, spread, nmax=3, share=None):
    surfs = []
    if rng.random() < 0.04:
        nmax = rng.choice([6, 9])
    for _ in range(rng.randint(1, nmax)):
        o = gen_opt(rng, opts, n)
        if share and rng.random() < 0.2:
            o = dict(share)
        surfs.append({'g': gen_geom(rng, kinds), 'o': o, 'T': gen_T(rng, spread*0.6),
                      'via': rng.choice(['ctor', 'set'])})
    return {'t': 'obj', 'T': gen_T(rng, spread), 'via': rng.choice(VIAS), 'surfs': surfs}


def gen_tri_mesh(rng, opts, n, spread):
    verts = [[rnd(rng, -2, 2), rnd(rng, -2, 2), rnd(rng, -1, 1)] for _ in range(rng.randint(3, 6))]
    # points for exactly collinear faces
    base = [float(rng.randint(-1, 1)) for _ in range(3)]
    k = len(verts)
    verts += [base, [base[0] + 1., base[1], base[2]], [base[0] + 2., base[1], base[2]]]
    faces = []
    tries = 0
    while len(faces) < rng.randint(1, 4) and tries < 50:
        tries += 1
        f = rng.sample(range(k), 3)
        e1 = sub(verts[f[1]], verts[f[0]])
        e2 = sub(verts[f[2]], verts[f[0]])
        if norm(cross(e1, e2)) > 0.3*norm(e1)*norm(e2) and norm(e1) > .2 and norm(e2) > .2:
            faces.append(f)
    if not faces:
        verts[:3] = [[0., 0., 0.], [1.5, 0., 0.], [0.2, 1.7, 0.3]]
        faces = [[0, 1, 2]]
    for _ in range(rng.choice([0, 1, 1, 2])):
        deg = rng.choice([[k, k + 1, k + 2], [0, 0, 1], [1, 2, 1], [k + 2, k, k + 1]])
        faces.insert(rng.randint(0, len(faces)), deg)
    return {'t': 'tri', 'T': gen_T(rng, spread), 'via': rng.choice(['ctor', 'st']),
            'verts': verts, 'faces': faces, 'o': gen_opt(rng, opts, n)}


def gen_lens(rng, n, spread):
    D = rnd(rng, 0.5, 2.)
    def rad():
        if rng.random() < 0.25:
            return None
        return rng.choice([-1, 1])*round(D*rng.uniform(0.75, 4), 4)
    while True:
        s = {'t': 'lens', 'T': gen_T(rng, spread), 'via': rng.choice(['ctor', 'st', 'lr']),
             'D': D, 'depth': rnd(rng, 0.1, 0.8)*D, 'R1': rad(), 'R2': rad(), 'n': n,
             'flat1': rng.choice([0, 'none', 'inf', '-inf']),
             'flat2': rng.choice([0, 'none', 'inf', '-inf'])}
        s['depth'] = round(s['depth'], 4)
        if s['R1'] is None and s['R2'] is None:
            continue
        i1 = 0. if s['R1'] is None else 1./s['R1']
        i2 = 0. if s['R2'] is None else 1./s['R2']
        if abs(i1 - i2 + s['depth']*(n - 1.)*i1*i2/n) < 0.05:
            continue
        f, b, c = lens_geometry(s)
        if c is not None and c[0]['h'] < 0.02:
            continue
        if c is None:
            continue      # faces that cross inside the aperture: not a lens
        return s


def gen_node(rng, t, kinds, opts, n, spread):
    r = lambda lo, hi: rnd(rng, lo, hi)
    T, via = gen_T(rng, spread), rng.choice(['st', 'lr', 'rl'])
    if t == 'mirror1':
        s = {'t': t, 'T': T, 'via': via, 'w': r(0.5, 5), 'h': r(0.5, 5), 'a': rng.choice(ABS)}
        if rng.random() < 0.15:
            s.update(bare=True, a=0.)
        return s
    if t == 'recv1':
        s = {'t': t, 'T': T, 'via': via, 'w': r(0.5, 5), 'h': r(0.5, 5), 'a': rng.choice(ABS)}
        if rng.random() < 0.15:
            s.update(bare=True, a=1.)
        return s
    if t == 'lens':
        return gen_lens(rng, n, spread)
    if t == 'tri':
        return gen_tri_mesh(rng, opts, n, spread)
    if t == 'homog':
        return {'t': t, 'T': T, 'via': via, 'x': r(0.5, 3), 'y': r(0.5, 3), 'h': r(0.5, 4),
                'eff': rng.choice([0.5, 0.9, 1.])}
    if t in ('minidish', 'petal', 'hlr'):
        f = r(0.8, 2.5)
        depth = r(0.2, 0.8)
        s = {'t': t, 'T': T, 'via': via, 'D': r(1.5, 5), 'f': f, 'deff': rng.choice([0.5, 0.9, 1.]),
             'pos': round(f + depth*rng.uniform(0.3, 1.), 4), 'side': r(0.2, 0.8), 'depth': depth,
             'heff': rng.choice([0.5, 0.9]), 'aspect': rng.choice([1., 0.5, 1.7])}
        if rng.random() < 0.3:
            s.update(bare=True, aspect=1.)
        if t == 'hlr':
            s['g'] = gen_geom(rng, ('hemi', 'dish', 'hex', 'round', 'rect'))
            s['o'] = gen_opt(rng, [o for o in opts if o != 'refr'] or ('refl',), n)
        return s
    if t == 'field':
        return gen_field(rng, spread)
    raise KeyError(t)


def gen_field(rng, spread):
    pos = []
    for i in range(rng.randint(1, 4)):
        a = rng.uniform(0, 2*math.pi)
        d = 2.5*(i + 1) + rng.uniform(0, 1)
        pos.append([round(d*math.cos(a), 4), round(d*math.sin(a), 4), rnd(rng, -0.5, 0.5)])
    return {'t': 'field', 'T': gen_T(rng, spread), 'via': 'st', 'pos': pos,
            'w': rnd(rng, 0.5, 1.5), 'h': rnd(rng, 0.5, 1.5), 'a': rng.choice([0., 0.1, 0.5]),
            'th': rnd(rng, 3, 10), 'aim': rng.choice([None, [rnd(rng, -3, 3), rnd(rng, 0, 1.2)]])}


# Media other than vacuum and glass: (outside, inside)
MEDIA = ((1.333, 1.34), (1.333, 1.5), (1.5, 1.7), (1.5, 1.508), (2., 1.2), (1.0003, 1.5), (1.4142, 1.))


def set_media(node, n0):
    for k in node.get('kids', ()):
        set_media(k, n0)
    for q in node.get('surfs', ()):
        set_media(q, n0)
    if node.get('o', {}).get('k') == 'refr':
        node['o'] = dict(node['o'], n0=n0)


def gen_scene(rng, opts=OPTS, kinds=GEOMS, models=MODELS, nobj=None, depth=2, spread=4., n=None,
              media=0.12):
    """A random scene: {"n": glass index, "root": asm spec}"""
    n0 = None
    if n is None and 'refr' in opts and rng.random() < media:
        n0, n = rng.choice(MEDIA)
        models = [m for m in models if m != 'lens']
    n = n or rng.choice([1.2, 1.5, 1.5, 2.0, 1.33, 2.5])
    q = rng.random()
    if q < 0.03:
        depth = rng.choice([3, 4, 5])
    elif q < 0.05:
        nobj = rng.choice([7, 10])
        depth = max(depth, 2)
    shared_recv = None
    if 'rr' in opts and rng.random() < 0.3:
        a = rng.choice([0.25, 0.5, 1.])
        shared_recv = {'k': 'rr', 'a': a, 'share': 'R%g' % a}
    flatroom = 'flat' in kinds

    def asm(level, count):
        kids = []
        while count > 0:
            if level > 0 and rng.random() < 0.35:
                c = rng.randint(1, count)
                kids.append(asm(level - 1, c))
                count -= c
                continue
            if models and rng.random() < 0.4:
                kids.append(gen_node(rng, rng.choice(models), kinds, opts, n, spread))
            else:
                kids.append(gen_obj(rng, kinds, opts, n, spread, share=shared_recv))
            count -= 1
        if rng.random() < 0.03:
            kids.insert(rng.randint(0, len(kids)), rng.choice([
                {'t': 'obj', 'T': gen_T(rng, 2.), 'via': rng.choice(VIAS), 'surfs': []},
                {'t': 'asm', 'T': gen_T(rng, 2.), 'via': rng.choice(VIAS), 'kids': []}]))
        return {'t': 'asm', 'T': gen_T(rng, 2.) if level < depth or rng.random() < 0.5 else None,
                'via': rng.choice(VIAS), 'kids': kids}
    root = asm(depth, nobj or rng.randint(1, 4))
    if n0 is not None:
        set_media(root, n0)
    return {'n': n, 'root': root}


def sample_local(rng, g):
    """A random local point on the trimmed surface (or near it)."""
    k = g['k']
    for _ in range(60):
        if k == 'flat':
            return (rng.uniform(-4, 4), rng.uniform(-4, 4), 0.)
        if k == 'rect':
            return (rng.uniform(-.5, .5)*g['w'], rng.uniform(-.5, .5)*g['h'], 0.)
        if k == 'round':
            r, a = g['R']*math.sqrt(rng.random()), rng.uniform(0, 2*math.pi)
            return (r*math.cos(a), r*math.sin(a), 0.)
        if k == 'tri':
            u, v = g['verts']
            a, b = rng.random(), rng.random()
            if a + b > 1:
                a, b = 1 - a, 1 - b
            return (a*u[0] + b*v[0], a*u[1] + b*v[1], 0.)
        if k in M.SPHERICAL:
            x = (rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1))
            x = mul(unit(x), g['R'])
        elif k in M.PARABOLIC:
            a, b = M.parab_coefs(g)
            w = g.get('D', 3.)/2.
            x = (rng.uniform(-w, w), rng.uniform(-w, w), 0.)
            x = (x[0], x[1], a*x[0]**2 + b*x[1]**2)
        else:
            a = rng.uniform(0, 2*math.pi)
            h = g.get('h', 6.)/2.
            x = (g['D']/2.*math.cos(a), g['D']/2.*math.sin(a), rng.uniform(-h, h))
        if M.aperture(g, x)[0]:
            return x
    return x


def on_surface(g, x):
    """The point of the untrimmed surface near a local point."""
    k = g['k']
    if k in M.PLANAR:
        return (x[0], x[1], 0.)
    if k in M.SPHERICAL:
        return mul(unit(x), g['R']) if norm(x) > 1e-9 else (0., 0., -g['R'])
    if k in M.PARABOLIC:
        a, b = M.parab_coefs(g)
        return (x[0], x[1], a*x[0]**2 + b*x[1]**2)
    h = math.hypot(x[0], x[1])
    if h < 1e-9:
        return (g['D']/2., 0., x[2])
    return (x[0]*g['D']/2./h, x[1]*g['D']/2./h, x[2])


def sample_edge(rng, g):
    """A local point of the surface just inside or outside its aperture."""
    a = sample_local(rng, g)
    size = max([abs(v) for v in (g.get('w', 0.), g.get('h', 0.), g.get('R', 0.), g.get('D', 0.))] + [1.])
    for _ in range(8):
        b = on_surface(g, add(a, tuple(rng.gauss(0, size) for _ in range(3))))
        if not M.aperture(g, b)[0]:
            break
    else:
        return a
    for _ in range(60):
        m = on_surface(g, mul(add(a, b), 0.5))
        if M.aperture(g, m)[0]:
            a = m
        else:
            b = m
        if dist(a, b) < 1e-9:
            break
    x = sample_local(rng, g)
    u = sub(x, a) if rng.random() < 0.6 else sub(a, x)
    if norm(u) < 1e-9:
        return a
    return on_surface(g, along(a, unit(u), size*10**rng.uniform(-6, -1.7)))


def tilt(rng, d, lo=-6, hi=-1):
    """A direction a little off d."""
    return unit(add(d, mul(tuple(rng.gauss(0, 1) for _ in range(3)), 10**rng.uniform(lo, hi))))


def gen_rays(rng, surfs, count, n=1.5, glass=True, energies=None):
    """Rays aimed at (or starting on, inside, parallel to) the surfaces."""
    rays = []
    n0 = next((s.o['n0'] for s in surfs if 'n0' in s.o), 1.)
    pow2 = rng.random() < 0.5
    near = rng.random() < 0.3
    unit_e = rng.choice([1.]*12 + [1e-12, 1e9]) if not energies else 1.
    nought = rng.random() < 0.03 and not energies
    for _ in range(count):
        s = rng.choice(surfs)
        tgt = xform_pt(s.M, sample_local(rng, s.g))
        r = rng.random()
        dense = None
        if r < 0.1:      # axis-parallel, world
            d = rng.choice([(1., 0., 0.), (-1., 0., 0.), (0., 1., 0.), (0., -1., 0.), (0., 0., 1.), (0., 0., -1.)])
            p = along(tgt, d, -rng.uniform(0.5, 8))
        elif r < 0.25:   # along the local normal or axis
            loc = rng.choice([(0., 0., 1.), (0., 0., -1.), (1., 0., 0.)])
            d = xform_dir(s.M, loc) if rng.random() < 0.5 else mul(s.world_normal(tgt), rng.choice([1., -1.]))
            d = unit(d)
            p = along(tgt, d, -rng.uniform(0.2, 6))
        elif r < 0.35:   # from inside: the origin of a surface's frame
            p = add(xform_pt(s.M, (0., 0., 0.)), tuple(rng.uniform(-.3, .3) for _ in range(3)))
            d = unit(tuple(rng.gauss(0, 1) for _ in range(3)))
        elif r < 0.45:   # starting on a surface
            p = tgt
            d = unit(tuple(rng.gauss(0, 1) for _ in range(3)))
        elif r < 0.5:    # anywhere
            p = tuple(rng.uniform(-6, 6) for _ in range(3))
            d = unit(tuple(rng.gauss(0, 1) for _ in range(3)))
        elif r < 0.6 and len(surfs) > 1:  # from one surface to another
            s2 = rng.choice(surfs)
            p = xform_pt(s2.M, sample_local(rng, s2.g))
            if dist(p, tgt) < 1e-3:
                p = add(p, (0.5, 0.2, 0.1))
            d = unit(sub(tgt, p))
        elif r < 0.66:   # to the edge of the aperture
            tgt = xform_pt(s.M, sample_edge(rng, s.g))
            p = add(tgt, mul(unit(tuple(rng.gauss(0, 1) for _ in range(3))), rng.uniform(0.3, 9)))
            d = unit(sub(tgt, p))
        elif r < 0.71:   # grazing
            nv = s.world_normal(tgt)
            u = cross(nv, tuple(rng.gauss(0, 1) for _ in range(3)))
            d = unit(add(unit(u), mul(nv, rng.choice([-1., 1.])*10**rng.uniform(-5, -1))))
            p = along(tgt, d, -rng.uniform(0.3, 9))
        elif r < 0.76:   # nearly along the local axis or normal
            d = xform_dir(s.M, rng.choice([(0., 0., 1.), (0., 0., -1.), (1., 0., 0.)])) \
                if rng.random() < 0.6 else mul(s.world_normal(tgt), rng.choice([1., -1.]))
            d = tilt(rng, d)
            p = along(tgt, d, -rng.uniform(0.2, 6))
        elif r < 0.79 and s.o['k'] == 'refr':     # around the critical angle
            nv = mul(s.world_normal(tgt), rng.choice([1., -1.]))
            u = unit(cross(nv, tuple(rng.gauss(0, 1) for _ in range(3))))
            na, nb = s.o['n'], s.o.get('n0', 1.)
            ang = math.asin(min(na, nb)/max(na, nb)) + rng.choice([-1., 1.])*10**rng.uniform(-4, -0.7)
            d = unit(add(mul(nv, math.cos(ang)), mul(u, math.sin(ang))))
            p = along(tgt, d, -rng.uniform(0.2, 6))
            dense = max(na, nb)
        else:
            away = rng.uniform(0.3, 9)
            if near:
                q = rng.random()
                if q < 0.35:
                    away = 10**rng.uniform(-4.5, -1)
                elif q < 0.6:
                    away = 10**rng.uniform(1, 2.6)
            p = add(tgt, mul(unit(tuple(rng.gauss(0, 1) for _ in range(3))), away))
            d = unit(sub(tgt, p))
        if energies:
            e = rng.choice(energies)
        elif pow2:
            e = rng.choice([1., 2., 4., 0.5, 8.])
        else:
            e = rnd(rng, 0.2, 10)
        e = 0. if nought and rng.random() < 0.3 else e*unit_e
        ri = n if glass and rng.random() < 0.3 else n0
        if dense is not None and glass and dense in (n, n0):
            ri = dense
        rays.append(list(p) + list(d) + [e, ri])
    return rays
