"""
Judging a recorded ray tree against the scalar model, one step at a time: each
recorded ray is stepped from its recorded parent, so no error accumulates.
"""
import math
import model as M
from linalg import *


class Level(object):
    """A bundle as plain Python data."""
    __slots__ = ('v', 'd', 'e', 'n', 'par', 'uid', 'num')

    def __init__(self, b, level=None):
        v = b.get_vertices()
        self.v = [tuple(float(x) for x in c) for c in v.T.tolist()]
        self.d = [tuple(float(x) for x in c) for c in b.get_directions().T.tolist()]
        self.num = len(self.v)

        def opt(name):
            try:
                a = getattr(b, 'get_' + name)()
            except (KeyError, AttributeError):
                return None
            return None if a is None else a.tolist()
        self.e = opt('energy')
        self.n = opt('ref_index')
        self.par = opt('parents') if level != 0 else None
        self.uid = opt('uid')


def levels_of(tree):
    return [Level(tree[i], i) for i in range(tree.num_bunds())]


def digest_levels(levels):
    """Exact content, for equality between runs."""
    return [(l.v, l.d, l.e, l.n, l.par, l.uid) for l in levels]


def bad(x):
    return x != x or x in (float('inf'), float('-inf'))


class Report(object):
    def __init__(self):
        self.issues = []          # (class, message)
        self.steps = 0            # judged ray steps
        self.ambig = 0
        self.hits = 0
        self.escapes = 0
        self.ambig_uids = set()
        self.ledger = []          # (real surface, point, absorbed, sure)
        self.kinds = {}
        self.diffuse = []         # (world normal on the lit side, direction)
        self.branches = set()

    def add(self, cls, msg):
        if len(self.issues) < 20:
            self.issues.append((cls, msg))

    def count(self, key):
        self.kinds[key] = self.kinds.get(key, 0) + 1


ABSORB = {'refl': 1, 'rr': 1, 'ar': 1, 'lamb': 1, 'lr': 1}
RECV = ('rr', 'lr')


def absorptivity(o):
    return 0. if o['k'] in ('pm', 'refr') else o['a']


def close(a, b, tol):
    return abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol and abs(a[2] - b[2]) <= tol


def check_tree(surfs, levels, reps, min_e, rep=None, returned=None, extra_skip=False):
    """
    surfs - mirrored surfaces in their current pose.
    levels - Level list of the recorded tree (with the source as level 0).
    returned - (vertices, directions) returned by the trace, or None.
    """
    rep = rep or Report()
    has_skip = any(s.skip for s in surfs)
    nl = len(levels)
    if nl - 1 > reps:
        rep.add('C14:depth', '%d bounces recorded, %d requested' % (nl - 1, reps))
    origin = [None]*levels[0].num
    known = [True]*levels[0].num
    for L in range(nl):
        cur = levels[L]
        nxt = levels[L + 1] if L + 1 < nl else None
        for j in range(cur.num):
            if any(bad(x) for x in cur.v[j]) or any(bad(x) for x in cur.d[j]):
                rep.add('C02:nan', 'level %d ray %d: vertex %r direction %r' % (L, j, cur.v[j], cur.d[j]))
                return rep
            if L and bad(cur.e[j]):
                rep.add('C03:nan', 'level %d ray %d: energy %r' % (L, j, cur.e[j]))
                return rep
        # Which rays of this level are followed:
        if L == 0:
            live = [True]*cur.num
        else:
            live = [e > min_e for e in cur.e]
            seen_weak = False
            for j in range(cur.num):
                if not live[j]:
                    seen_weak = True
                elif seen_weak:
                    rep.add('C04:order', 'level %d: ray %d is still followed but recorded after a weak one' % (L, j))
                    break
            if abs(max([abs(dot(d, d) - 1.) for d in cur.d] or [0.])) > 1e-7:
                rep.add('C02:unit', 'level %d has directions that are not unit vectors' % L)
        kids = [[] for _ in range(cur.num)]
        if nxt is not None:
            if nxt.num == 0:
                rep.add('C04:empty', 'level %d recorded without rays' % (L + 1))
            for j in range(nxt.num):
                p = nxt.par[j] if nxt.par is not None else None
                if p is None or p != p or int(p) != p or not 0 <= p < cur.num:
                    rep.add('C04:parent-range', 'level %d ray %d: parent %r of %d' % (L + 1, j, p, cur.num))
                    return rep
                kids[int(p)].append(j)
                if cur.uid is not None and (nxt.uid is None or nxt.uid[j] != cur.uid[int(p)]):
                    rep.add('C04:uid', 'level %d ray %d: tag %r, its recorded parent has %r' % (
                        L + 1, j, nxt.uid[j] if nxt.uid else None, cur.uid[int(p)]))
        norig = [None]*(nxt.num if nxt else 0)
        nknown = [True]*(nxt.num if nxt else 0)
        for i in range(cur.num):
            if not live[i]:
                if kids[i]:
                    rep.add('C14:weak-continued', 'level %d ray %d: energy %r, threshold %r, yet continued' % (L, i, cur.e[i], min_e))
                continue
            if L >= reps:
                if kids[i]:
                    rep.add('C14:depth', 'level %d continued after %d bounces' % (L, reps))
                continue
            if not known[i] and has_skip:
                for j in kids[i]:
                    nknown[j] = False
                    rep.ledger.append((None, nxt.v[j], None, False))
                rep.ambig += 1
                if cur.uid is not None:
                    rep.ambig_uids.add(cur.uid[i])
                continue
            h = M.first_hit(surfs, cur.v[i], cur.d[i], origin[i])
            rep.steps += 1
            if h is M.AMBIG:
                rep.ambig += 1
                if cur.uid is not None:
                    rep.ambig_uids.add(cur.uid[i])
                for j in kids[i]:
                    nknown[j] = False
                    rep.ledger.append((None, nxt.v[j], None, False))
                continue
            where = 'level %d ray %d (from %s along %s)' % (L, i, fmt(cur.v[i]), fmt(cur.d[i]))
            if h is None:
                rep.escapes += 1
                if kids[i]:
                    rep.add('C01:phantom', '%s meets nothing, yet is continued from %s' % (where, fmt(nxt.v[kids[i][0]])))
                    return rep
                continue
            rep.hits += 1
            rep.count(h.surf.g['k'] + '/' + h.surf.o['k'])
            if not kids[i]:
                rep.add('C01:missed', '%s meets %s at t=%r %s, but is not continued' % (where, h.surf.name, h.t, fmt(h.pt)))
                return rep
            tol = 1e-7*(1. + h.t) + 10.*h.terr
            wrong = [j for j in kids[i] if not close(nxt.v[j], h.pt, tol)]
            if wrong:
                rep.add('C01:wrong-point', '%s meets %s first, at %s, but is continued from %s' % (
                    where, h.surf.name, fmt(h.pt), fmt(nxt.v[wrong[0]])))
                return rep
            for j in kids[i]:
                norig[j] = h.surf
            judge_optics(rep, h, cur, i, nxt, kids[i], where, nknown)
        origin, known = norig, nknown
    check_return(rep, levels, reps, min_e, returned)
    return rep


def fmt(v):
    return '(%.9g, %.9g, %.9g)' % tuple(v)


def judge_optics(rep, h, cur, i, nxt, kids, where, nknown):
    s = h.surf
    o = s.o
    k = o['k']
    d = cur.d[i]
    E = cur.e[i]
    n = s.world_normal(nxt.v[kids[0]])
    n_in = cur.n[i] if cur.n is not None else None
    scale = 1e-8 + 1e-13*(1. + norm(cur.v[i]) + h.t)
    if k == 'refr':
        n0 = o.get('n0', 1.)
        n2 = o['n'] if n_in == n0 else n0
        want, c2, sure = M.refract(d, n, n_in, n2)
        if not sure:
            rep.branches.add('critical')
            check_sum(rep, E, nxt, kids, where)
            for j in kids:
                nknown[j] = True
            return
        refl_d = M.reflect(d, n)
        if want is None:
            rep.branches.add('total reflection')
            if len(kids) != 1:
                rep.add('C02:branches', '%s: total reflection must give 1 ray, gave %d' % (where, len(kids)))
                return
            expect = [(refl_d, 1., n_in)]
            dtol = scale
        else:
            R, ct = M.fresnel(d, n, n_in, n2)
            rep.branches.add('refraction in' if n_in == n0 else 'refraction out')
            if len(kids) != 2:
                rep.add('C02:branches', '%s: refraction must give 2 rays, gave %d' % (where, len(kids)))
                return
            expect = [(refl_d, R, n_in), (want, 1. - R, n2)]
            dtol = scale + 1e-13/max(c2, 1e-7)
        etol = 1e-9 + 1e-13/max(c2 if want is not None else 1., 1e-7)
        # match rays to expectations by refractive index, then direction
        left = list(kids)
        for ed, frac, en in expect:
            best = None
            for j in left:
                err = max(abs(nxt.d[j][q] - ed[q]) for q in range(3))
                if best is None or err < best[0]:
                    best = (err, j)
            if best[0] > dtol:
                rep.add('C02:direction', '%s on %s (normal %s): expected outgoing direction %s, closest is %s' % (
                    where, s.name, fmt(n), fmt(ed), fmt(nxt.d[best[1]])))
                return
            j = best[1]
            left.remove(j)
            if nxt.n is None or abs(nxt.n[j] - en) > 1e-12:
                rep.add('C02:index', '%s on %s: ray along %s carries index %r, expected %r' % (
                    where, s.name, fmt(ed), nxt.n[j] if nxt.n else None, en))
            if abs(nxt.e[j] - E*frac) > etol*abs(E):
                rep.add('C03:split', '%s on %s: ray along %s carries %r of %r, expected %r' % (
                    where, s.name, fmt(ed), nxt.e[j], E, E*frac))
        check_sum(rep, E, nxt, kids, where)
        return
    # everything else: one outgoing ray
    if len(kids) != 1:
        rep.add('C04:branches', '%s on %s: %d outgoing rays, expected 1' % (where, s.name, len(kids)))
        rep.add('C03:branches', '%s on %s: %d outgoing rays, expected 1' % (where, s.name, len(kids)))
        return
    j = kids[0]
    a = o.get('a', 0.)
    keep = 1. - a
    if k == 'ar':
        up = xform_dir(s.M, (0., 0., 1.))
        side = dot(up, d)
        if abs(side) < 1e-9:
            keep = None
        elif side > 0:
            keep = 0.
            rep.branches.add('back of one-sided')
        else:
            rep.branches.add('front of one-sided')
    if keep is not None and abs(nxt.e[j] - E*keep) > 1e-11*abs(E):
        rep.add('C03:energy', '%s on %s (absorptivity %r): outgoing %r of %r, expected %r' % (
            where, s.name, a, nxt.e[j], E, E*keep))
    if nxt.e[j] < 0 or nxt.e[j] > E*(1 + 1e-12):
        rep.add('C03:created', '%s: outgoing energy %r of %r' % (where, nxt.e[j], E))
    if n_in is not None and (nxt.n is None or nxt.n[j] != n_in):
        rep.add('C02:index', '%s on %s: index changed from %r to %r on reflection' % (
            where, s.name, n_in, nxt.n[j] if nxt.n else None))
    if k in RECV:
        rep.ledger.append((s.real, nxt.v[j], E*a, True))
    if k in ('lamb', 'lr'):
        lit = n if dot(n, d) < 0 else mul(n, -1.)
        rep.diffuse.append((lit, nxt.d[j], nxt.v[j]))
        if abs(norm(nxt.d[j]) - 1.) > 1e-9:
            rep.add('C12:unit', '%s on %s: |direction| = %r' % (where, s.name, norm(nxt.d[j])))
        if dot(lit, nxt.d[j]) < -1e-9:
            rep.add('C12:side', '%s on %s: scattered to the unlit side, %s with normal %s' % (
                where, s.name, fmt(nxt.d[j]), fmt(lit)))
        return
    want = M.reflect(d, n)
    if not close(nxt.d[j], want, scale):
        rep.add('C02:direction', '%s on %s (normal %s): expected outgoing direction %s, got %s' % (
            where, s.name, fmt(n), fmt(want), fmt(nxt.d[j])))


def check_sum(rep, E, nxt, kids, where):
    tot = sum(nxt.e[j] for j in kids)
    if abs(tot - E) > 1e-11*abs(E):
        rep.add('C03:sum', '%s: outgoing energies add to %r of %r' % (where, tot, E))
    for j in kids:
        if nxt.e[j] < 0 or nxt.e[j] > E*(1 + 1e-12):
            rep.add('C03:created', '%s: outgoing energy %r of %r' % (where, nxt.e[j], E))


def check_return(rep, levels, reps, min_e, returned):
    if returned is None:
        return
    rv, rd = returned
    got = sorted(zip([tuple(c) for c in rv.T.tolist()], [tuple(c) for c in rd.T.tolist()]))
    last = levels[-1]
    if len(levels) == 1:
        kept = list(zip(last.v, last.d))
    else:
        kept = [(last.v[j], last.d[j]) for j in range(last.num) if last.e[j] > min_e]
    kept.sort()
    if len(levels) - 1 < reps:
        # stopped early: nothing left to follow
        if got:
            rep.add('C04:returned', '%d rays returned after all rays ended' % len(got))
    elif got != kept:
        rep.add('C04:returned', 'returned rays (%d) are not those still followed (%d)' % (len(got), len(kept)))


def check_history(rep, tree, levels, picks):
    """picks: list of (level fraction, ray fraction); None level = last"""
    for lf, rf in picks:
        lev = len(levels) - 1 if lf is None else min(len(levels) - 1, int(lf*len(levels)))
        if levels[lev].num == 0:
            continue
        ray = min(levels[lev].num - 1, int(rf*levels[lev].num))
        want = [ray]
        for q in range(lev, 0, -1):
            want.append(int(levels[q].par[want[-1]]))
        got = tree.ray_history(ray) if lf is None else tree.ray_history(ray, lev)
        got = [float(x) for x in got]
        if got != [float(x) for x in want]:
            rep.add('C04:history', 'history of ray %d of level %d is %r, its parents are %r' % (ray, lev, got, want))
    par = tree.ordered_parents()
    if [p.tolist() for p in par] != [l.par for l in levels[1:]]:
        rep.add('C04:ordered-parents', 'ordered parents differ from the bundles\' parents')


def check_ledger(rep, optics, entries, energies, points, what):
    """
    entries - expected (point, energy, sure) since the last reset.
    energies, points - lists reported by the receiver.
    """
    if len(energies) != len(points):
        rep.add('C09:pairing', '%s: %d energies for %d points' % (what, len(energies), len(points)))
        return
    sure = [(p, e) for p, e, s in entries if s]
    unsure = len(entries) - len(sure)
    if not len(sure) <= len(points) <= len(sure) + unsure:
        rep.add('C09:count', '%s: %d hits reported, %d rays reached it' % (what, len(points), len(sure)))
        return
    grid = {}
    for q, p in enumerate(points):
        grid.setdefault(tuple(round(x, 5) for x in p), []).append(q)
    used = set()
    for p, e in sure:
        found = None
        base = tuple(round(x, 5) for x in p)
        cells = [base] + [tuple(round(base[i] + dd[i]*1e-5, 5) for i in range(3))
                          for dd in DELTAS]
        best = None
        for c in cells:
            for q in grid.get(c, ()):
                if q not in used and close(points[q], p, 1e-9*(1 + norm(p))):
                    err = abs(energies[q] - e)
                    if best is None or err < best[0]:
                        best = (err, q)
            if best is not None and best[0] <= 1e-10*(1 + abs(e)):
                break
        if best is None:
            rep.add('C09:lost', '%s: no entry for the hit at %s' % (what, fmt(p)))
            return
        if best[0] > 1e-10*(1 + abs(e)):
            rep.add('C09:energy', '%s: energy %r reported at %s, absorbed there %r' % (what, energies[best[1]], fmt(p), e))
            return
        used.add(best[1])


DELTAS = [(a, b, c) for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1) if (a, b, c) != (0, 0, 0)]
