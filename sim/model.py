"""
Reference model of a single ray in a scene: scalar, one ray at a time, no state.

Geometry specs (local frame, as the user documentation defines them):
  flat | rect w h | round R | tri verts[2][3] | sphere R | hemi R |
  cut R bound | parab a b | dish D f | hex D f | icyl D | fcyl D h

`hits(geom, p, d)` gives candidate intersections in local coordinates as
(t, sure): `sure` is False when rounding may decide whether the candidate
exists (aperture edge, tangency, degenerate quadratic).
"""
import math
from linalg import *

SELF_T = 1e-7        # |t| below: the point the ray starts from
NEAR_T = 1e-5        # SELF_T..NEAR_T: around the engine's documented cutoff
EDGE = 1e-7          # relative aperture margin
TIE = 1e-7
FAR = 1e6            # a ray this far out has lost too many digits


def _edge(value, limit, m=EDGE):
    """value <= limit? -> (inside, sure)"""
    m *= 1. + abs(limit)
    if value <= limit - m:
        return True, True
    if value >= limit + m:
        return False, True
    return value <= limit, False


def _both(*conds):
    """conjunction of (bool, sure) pairs"""
    sure = True
    for inside, s in conds:
        if not inside and s:
            return False, True
        sure = sure and s
    return all(c[0] for c in conds), sure


def aperture(g, x, m=EDGE):
    """(inside, sure) for a local point x already on the untrimmed surface."""
    k = g['k']
    if k in ('flat', 'sphere', 'parab', 'icyl'):
        return True, True
    if k == 'rect':
        return _both(_edge(abs(x[0]), g['w']/2., m), _edge(abs(x[1]), g['h']/2., m))
    if k == 'round':
        return _edge(math.hypot(x[0], x[1]), g['R'], m)
    if k == 'tri':
        u, v = g['verts']
        # signed distances from the three edges, triangle (0, u, v)
        conds = []
        pts = ((0., 0.), (u[0], u[1]), (v[0], v[1]))
        area = pts[1][0]*pts[2][1] - pts[1][1]*pts[2][0]
        s = 1. if area > 0 else -1.
        for i in range(3):
            a, b = pts[i], pts[(i + 1) % 3]
            ex, ey = b[0] - a[0], b[1] - a[1]
            dist_in = s*(ex*(x[1] - a[1]) - ey*(x[0] - a[0]))/math.hypot(ex, ey)
            conds.append(_edge(-dist_in, 0., m))
        return _both(*conds)
    if k == 'hemi':
        return _edge(x[2], 0., m)
    if k == 'cut':
        b = g.get('bound')
        if b is None:
            return True, True
        y = inv_pt(T4(b.get('T')), x)
        if b['k'] == 'sphere':
            return _edge(norm(y), b['R'], m)
        if b['k'] == 'cyl':
            return _edge(math.hypot(y[0], y[1]), b['D']/2., m)
        if b['k'] == 'plane':
            return _edge(-y[2], 0., m)
    if k == 'dish':
        return _edge(math.hypot(x[0], x[1]), g['D']/2., m)
    if k == 'hex':
        R = g['D']/2.
        ax, ay = abs(x[0]), abs(x[1])
        return _both(_edge(ax, math.sqrt(3.)*R/2., m),
                     _edge(ay + ax*math.tan(math.pi/6.), R, m))
    if k == 'fcyl':
        return _edge(abs(x[2]), g['h']/2., m)
    raise KeyError(k)


def parab_coefs(g):
    if g['k'] == 'parab':
        return 1./g['a']**2, 1./g['b']**2
    return 1./(4.*g['f']), 1./(4.*g['f'])


PLANAR = ('flat', 'rect', 'round', 'tri')
SPHERICAL = ('sphere', 'hemi', 'cut')
PARABOLIC = ('parab', 'dish', 'hex')


def roots(g, p, d):
    """Intersections with the untrimmed surface: list of (t, sure, terr)"""
    k = g['k']
    if k in PLANAR:
        if abs(d[2]) <= 1e-10:
            return [] if abs(d[2]) < 1e-11 else [(-p[2]/d[2], False, 1.)]
        return [(-p[2]/d[2], abs(d[2]) > 1e-9, 4e-16*(1. + norm(p))/abs(d[2]))]
    if k in SPHERICAL:
        A = dot(d, d)
        B = 2.*dot(p, d)
        C = dot(p, p) - g['R']**2
        Cm = dot(p, p) + g['R']**2
        scale = g['R']**2
    elif k in PARABOLIC:
        a, b = parab_coefs(g)
        A = a*d[0]**2 + b*d[1]**2
        B = 2.*(a*d[0]*p[0] + b*d[1]*p[1]) - d[2]
        C = a*p[0]**2 + b*p[1]**2 - p[2]
        Cm = a*p[0]**2 + b*p[1]**2 + abs(p[2])
        scale = 1.
    else:
        A = d[0]**2 + d[1]**2
        B = 2.*(p[0]*d[0] + p[1]*d[1])
        C = p[0]**2 + p[1]**2 - (g['D']/2.)**2
        Cm = p[0]**2 + p[1]**2 + (g['D']/2.)**2
        scale = (g['D']/2.)**2
    if A <= 1e-10:
        if k == 'icyl':
            return [(1., False, 1e9)]
        if k == 'fcyl':
            # Almost along the axis: sure to leave through an end if the wall
            # is further than the way to the end, at any drift.
            drift = math.sqrt(A)
            gap = abs(math.hypot(p[0], p[1]) - g['D']/2.)
            leave = (g['h']/2. + abs(p[2]))/abs(d[2])
            if gap > 1e-6 and 0.4*gap > drift*leave:
                return []
            return [(1., False, 1e9)]
        if abs(B) <= 1e-6:
            return [(1., False, 1e9)]
        t = -C/B
        out = [(t, True, 2.*A*t*t/abs(B) + 1e-14*(1. + abs(t)) + 1e-15*Cm/abs(B))]
        if k == 'parab' and A > 0. and -B/A > 0.:
            out.append((-B/A, False, 1.))
        return out
    disc = B*B - 4.*A*C
    mag = B*B + abs(4.*A*C) + A*scale
    full = B*B + 4.*A*Cm
    doubt = max(1e-10*mag, 1e-13*full)
    if disc < -doubt:
        return []
    if disc < doubt:
        t = -B/(2.*A)
        return [(t, False, 1e-4*(1. + abs(t)))]
    s = math.sqrt(disc)
    q = -0.5*(B + (s if B >= 0 else -s))
    t1 = q/A
    t2 = C/q if q != 0. else 0.
    err = 1e-15*(abs(B) + full/s)/A
    return [(t1, True, err), (t2, True, err)]


def hits(g, p, d):
    """candidates (t, sure, terr, local point) on the trimmed surface, t > 0"""
    out = []
    for t, sure, terr in roots(g, p, d):
        if abs(t) <= SELF_T and sure and terr < SELF_T:
            continue
        if t <= -NEAR_T - 10.*terr:
            continue
        if abs(t) <= NEAR_T + 10.*terr:
            sure = False
        x = along(p, d, t)
        inside, s2 = aperture(g, x, EDGE + 10.*min(terr, 1.))
        if not inside and s2 and terr < 1e-6:
            continue
        out.append((t, inside and sure and s2, terr, x))
    return out


def normal(g, x):
    """Unit normal at local point x, some orientation."""
    k = g['k']
    if k in PLANAR:
        return (0., 0., 1.)
    if k in SPHERICAL:
        return unit(x)
    if k in PARABOLIC:
        a, b = parab_coefs(g)
        return unit((-2.*a*x[0], -2.*b*x[1], 1.))
    return unit((x[0], x[1], 0.))


class Surf(object):
    """A surface of the mirrored scene."""
    __slots__ = ('g', 'o', 'M', 'obj', 'compound', 'real', 'skip', 'name')

    def __init__(self, g, o, M, obj, real=None, compound=None, skip=False, name=''):
        self.g, self.o, self.M, self.obj = g, o, M, obj
        self.real, self.compound, self.skip, self.name = real, compound, skip, name

    def world_normal(self, pt):
        return xform_dir(self.M, normal(self.g, inv_pt(self.M, pt)))


class Hit(object):
    __slots__ = ('t', 'terr', 'surf', 'pt')

    def __init__(self, t, terr, surf, pt):
        self.t, self.terr, self.surf, self.pt = t, terr, surf, pt


AMBIG = 'ambiguous'


def first_hit(surfs, p, d, origin=None):
    """
    The Hit a ray from p along d is continued from; None when it escapes;
    AMBIG when rounding may decide. origin: Surf the ray left, if known.
    """
    cands = []
    if norm(p) > FAR:
        return AMBIG
    for s in surfs:
        if origin is not None and s.skip and s.obj == origin.obj:
            continue
        lp, ld = inv_pt(s.M, p), inv_dir(s.M, d)
        for t, sure, terr, x in hits(s.g, lp, ld):
            cands.append((t, sure, terr, s, x))
    if not cands:
        return None
    best = None
    for c in cands:
        if c[1] and (best is None or c[0] < best[0]):
            best = c
    limit = best[0] if best else float('inf')
    for c in cands:
        if c is best:
            continue
        if best is not None and best[3].compound is not None and \
                c[3].compound == best[3].compound and c[1]:
            tol = 1e-13*(1. + limit)
        else:
            tol = TIE*(1. + limit) + c[2]
            if best is not None:
                tol += best[2]
        if c[1]:
            if best is not None and c[0] <= limit + tol and c[3] is not best[3]:
                return AMBIG
            if best is not None and c[3] is best[3] and c[0] <= limit + tol:
                return AMBIG
        elif c[0] <= limit + tol:
            return AMBIG
    if best is None:
        return AMBIG
    if best[0] < NEAR_T or best[2] > 1e-7*(1. + best[0]):
        return AMBIG
    return Hit(best[0], best[2], best[3], along(p, d, best[0]))


def reflect(d, n):
    k = 2.*dot(d, n)
    return (d[0] - k*n[0], d[1] - k*n[1], d[2] - k*n[2])


def refract(d, n, n1, n2):
    """-> (direction or None for total reflection, cos of refraction, sure)"""
    c1 = dot(d, n)
    r = n1/n2
    s2 = r*r*(1. - c1*c1)
    if s2 > 1.:
        return None, 0., s2 > 1. + 1e-9
    c2 = math.sqrt(max(0., 1. - s2))
    sg = 1. if c1 >= 0 else -1.
    return tuple(r*(d[i] - c1*n[i]) + sg*c2*n[i] for i in range(3)), c2, s2 < 1. - 1e-9


def fresnel(d, n, n1, n2):
    ci = min(1., abs(dot(d, n)))
    st = n1/n2*math.sqrt(max(0., 1. - ci*ci))
    ct = math.sqrt(max(0., 1. - st*st))
    rs = ((n1*ci - n2*ct)/(n1*ci + n2*ct))**2
    rp = ((n1*ct - n2*ci)/(n1*ct + n2*ci))**2
    return 0.5*(rs + rp), ct
