"""C15: histories of aiming a heliostat field, against the mirror law."""
import math
import scene as S
import seams
from linalg import *
from common import *
from optical import *


def gen_positions(rng):
    n = rng.choice([1, 2, 3, 5, 8])
    whole = rng.random() < 0.25
    hill = rng.random() < 0.3
    out = []
    tries = 0
    while len(out) < n and tries < 400:
        tries += 1
        r = rng.random()
        if whole:
            p = [rng.randint(-20, 20), rng.randint(-20, 20), rng.choice([0, 0, 1, -2])]
        elif r < 0.1:
            p = [0., 0., S.rnd(rng, -3, 0)]                      # right below the target
        elif r < 0.3:
            d = S.rnd(rng, 3, 40)
            p = rng.choice([[d, 0., 0.], [-d, 0., 0.], [0., d, 0.], [0., -d, 0.]])
        else:
            p = [S.rnd(rng, -30, 30), S.rnd(rng, -30, 30), rng.choice([0., S.rnd(rng, -3, 3), S.rnd(rng, -20, 25) if hill else 0.])]
        if all(dist(p, q) > 2.5 for q in out):
            out.append(p)
    return out


def gen_sun(rng):
    return [rng.choice([0., math.pi/2, math.pi, -math.pi/2, S.rnd(rng, -math.pi, math.pi), S.rnd(rng, -7, 7)]),
            rng.choice([0., S.rnd(rng, 0, 1.5), S.rnd(rng, 0, 1.5), S.rnd(rng, 0, 1.5), 1.57])]


def gen_height(rng):
    return rng.choice([S.rnd(rng, 5, 60), S.rnd(rng, 5, 60), S.rnd(rng, 5, 60), S.rnd(rng, 0.5, 6)])


def gen_field(rng):
    return {'pos': gen_positions(rng), 'w': S.rnd(rng, 0.3, 0.8), 'h': S.rnd(rng, 0.3, 0.8),
            'a': rng.choice([0., 0.1, 0.5]), 'th': gen_height(rng),
            'T': S.gen_T(rng, 5.) if rng.random() < 0.4 else None,
            'outer': S.gen_T(rng, 5.) if rng.random() < 0.4 else None, 'form': rng.choice(['array', 'array', 'view'])}


def gen_c15(rng, i, tier):
    suns, heights = [], []

    def next_sun():
        s = gen_sun(rng)
        if suns and rng.random() < 0.35:
            o = rng.choice(suns)
            s = rng.choice([o, o, suns[-1], [o[0], s[1]], [s[0], o[1]]])
        suns.append(list(s))
        return list(s)

    def next_height():
        heights.append(rng.choice(heights) if heights and rng.random() < 0.2 else gen_height(rng))
        return heights[-1]
    case = {'fields': [gen_field(rng)], 'ops': []}
    two = rng.random() < 0.3
    if two:
        case['fields'].append(gen_field(rng))
    for _ in range(rng.choice([1, 2, 4, 7, 10])):
        f = rng.randrange(len(case['fields']))
        r = rng.random()
        if r < 0.4:
            op = {'op': 'aim', 'f': f, 'sun': next_sun()}
        elif r < 0.52:
            op = {'op': 'height', 'f': f, 'h': next_height()}
        elif r < 0.65:
            op = {'op': 'move', 'f': f, 'who': rng.choice(['field', 'outer']), 'T': S.gen_T(rng, 5.),
                  'via': rng.choice(['st', 'loc', 'rot'])}
        elif r < 0.78:
            op = {'op': 'fault', 'f': f, 'sun': next_sun(), 'at': round(rng.random(), 4),
                  'kind': rng.choice(['interrupt', 'memory'])}
        elif r < 0.86:
            op = {'op': 'scribble', 'f': f}
        elif r < 0.93 or not two:
            op = {'op': 'day', 'f': f, 'suns': [next_sun() for _ in range(rng.choice([2, 6, 20]))]}
        else:
            op = {'op': 'conc', 'suns': [next_sun(), next_sun()], 'sched': gen_sched(rng, 2)}
        case['ops'].append(op)
    if case['ops'][-1]['op'] == 'fault':
        case['ops'].append({'op': 'aim', 'f': case['ops'][-1]['f'], 'sun': next_sun()})
    return case


class Field(object):
    def __init__(self, ctx, spec):
        env, N = ctx.env, ctx.env.N
        self.ctx, self.env, self.spec = ctx, env, spec
        self.pos = [tuple(float(x) for x in p) for p in spec['pos']]
        if not self.pos:
            raise S.Invalid('empty field')
        a = N.array(spec['pos'])
        if spec['form'] == 'view':
            wide = N.zeros((a.shape[0], 5), dtype=a.dtype)
            wide[:,1:4] = a
            a = wide[:,1:4]
        self.array, self.copy = a, a.copy()
        self.real = env.field.HeliostatField(a, spec['w'], spec['h'], spec['a'], spec['th'])
        self.th = spec['th']
        self.T, self.outerT = T4(None), T4(None)
        if spec['T']:
            self.T = T4(spec['T'])
            self.real.set_transform(N.array([list(r) for r in self.T]))
        self.outer = env.Assembly(subassemblies=[self.real])
        self.outer.transform_children()
        if spec['outer']:
            self.outerT = T4(spec['outer'])
            self.outer.set_transform(N.array([list(r) for r in self.outerT]))
        self.aimed = [[None]]*len(self.pos)   # possible (sun, target height) of each heliostat

    def want_normals(self, i, aim):
        """In the field's frame; None if not defined."""
        if aim is None:
            return (0., 0., -1.)
        sun, th = aim
        sv = S.solar_vec(*sun)
        tv = unit(sub((0., 0., th), self.pos[i]))
        s = add(sv, tv)
        return unit(s) if norm(s) > 1e-2 else None

    def judge(self, what):
        ctx, N = self.ctx, self.env.N

        def bad(cls, msg):
            ctx.violate('C15:' + cls, '%s: %s' % (what, msg))
        if self.array.tolist() != self.copy.tolist() and not getattr(self, 'scribbled', False):
            bad('input', 'the caller\'s positions changed')
            return
        hs = self.real.get_heliostats()
        if len(hs) != len(self.pos):
            bad('count', '%d heliostats for %d positions' % (len(hs), len(self.pos)))
            return
        W = matmul(self.outerT, self.T)
        v, d, who = [], [], []
        for i, h in enumerate(hs):
            t = h.get_transform().tolist()
            if dist(tuple(t[k][3] for k in range(3)), self.pos[i]) > 1e-9:
                bad('position', 'heliostat %d stands at %r, its position is %r' % (i, [t[k][3] for k in range(3)], self.pos[i]))
                return
            n = tuple(t[k][2] for k in range(3))
            wants = [self.want_normals(i, a) for a in self.aimed[i]]
            if None in wants:
                continue
            ok = [k for k, w in enumerate(wants) if dist(n, w) < 1e-7]
            if not ok:
                bad('normal', 'heliostat %d has normal %r, expected %r (aimed by %r)' % (i, n, wants, self.aimed[i]))
                return
            # where the surface really is in the world
            surf = h.get_surfaces()[0]
            c = xform_pt(W, self.pos[i])
            up = xform_dir(W, n)
            loc = surf.global_to_local(N.array([c, along(c, up, 1.)]).T).T.tolist()
            if dist(loc[0][:3], (0., 0., 0.)) > 1e-7 or dist(loc[1][:3], (0., 0., 1.)) > 1e-7:
                bad('pose', 'heliostat %d: its centre is at local %r, its normal ends at %r' % (i, loc[0], loc[1]))
                return
            aim = self.aimed[i][ok[0]]
            if aim is not None:
                sv = xform_dir(W, S.solar_vec(*aim[0]))
                v.append(along(c, sv, 0.5))
                d.append(mul(sv, -1.))
                who.append((i, c, xform_pt(W, (0., 0., aim[1]))))
        ctx.probe('heliostats judged', len(hs))
        if not v:
            return
        b = self.env.RayBundle(N.array(v).T, N.array(d).T, energy=N.ones(len(v)), ref_index=N.ones(len(v)))
        eng = self.env.TracerEngine(self.outer)
        eng.ray_tracer(b, 1, 0.)
        if eng.tree.num_bunds() < 2:
            bad('ray', 'no sun ray is reflected')
            return
        out = eng.tree[1]
        seen = {}
        for p, x, y, e in zip(out.get_parents().tolist(), out.get_vertices().T.tolist(), out.get_directions().T.tolist(),
                              out.get_energy().tolist()):
            seen.setdefault(int(p), []).append((tuple(x), tuple(y), e))
        for k, (i, c, tgt) in enumerate(who):
            r = seen.get(k, [])
            if len(r) != 1:
                bad('ray', 'the sun ray of heliostat %d gives %d rays' % (i, len(r)))
                return
            x, y, e = r[0]
            if abs(e - (1. - self.spec['a'])) > 1e-9:
                bad('ray', 'the sun ray of heliostat %d keeps %r, absorptivity %r' % (i, e, self.spec['a']))
                return
            to = sub(tgt, x)
            if dist(x, c) > 1e-6 or dot(to, y) <= 0 or norm(cross(to, y)) > 1e-6*(1 + norm(to)):
                bad('target', 'the sun ray of heliostat %d leaves %r along %r, the target is at %r' % (i, x, y, tgt))
                return
        ctx.probe('sun rays judged', len(who))


def run_c15(ctx, case):
    env, N = ctx.env, ctx.env.N
    fields = [Field(ctx, sp) for sp in case['fields']]
    for f in fields:
        f.judge('new field')
    for i, op in enumerate(case['ops']):
        if ctx.violations:
            return
        what = 'op %d (%s)' % (i, op['op'])
        k = op.get('f', 0)
        if k >= len(fields):
            raise S.Invalid('field')
        f = fields[k]
        if op['op'] == 'aim':
            f.real.aim_to_sun(*op['sun'])
            f.aimed = [[(tuple(op['sun']), f.th)]]*len(f.pos)
        elif op['op'] == 'day':
            for s in op['suns']:
                f.real.aim_to_sun(*s)
                f.aimed = [[(tuple(s), f.th)]]*len(f.pos)
                f.judge(what)
                if ctx.violations:
                    return
        elif op['op'] == 'height':
            f.real.set_aim_height(op['h'])
            f.th = op['h']
        elif op['op'] == 'move':
            T = T4(op['T'])
            node, cur = (f.real, f.T) if op['who'] == 'field' else (f.outer, f.outerT)
            if op['via'] == 'st':
                node.set_transform(N.array([list(r) for r in T]))
                new = T
            elif op['via'] == 'loc':
                node.set_location(N.array([T[q][3] for q in range(3)]))
                new = homog([r[:3] for r in cur[:3]], [T[q][3] for q in range(3)])
            else:
                node.set_rotation(N.array([list(r[:3]) for r in T[:3]]))
                new = homog([r[:3] for r in T[:3]], [cur[q][3] for q in range(3)])
            if op['who'] == 'field':
                f.T = new
            else:
                f.outerT = new
        elif op['op'] == 'scribble':
            f.array[...] = 77
            f.scribbled = True
        elif op['op'] == 'fault':
            # length of the aiming in lines, from a twin field
            tw = Field(ctx, f.spec)
            _, log = seams.record_lines(ctx.lines, tw.real.aim_to_sun, *op['sun'])
            at = int(op['at']*len(log))
            out, _ = seams.run_with_fault(ctx.lines, at, seams.FAULTS[op['kind']], f.real.aim_to_sun, *op['sun'])
            if out == 'fault':
                ctx.fault(op['kind'])
                ctx.state('fault at', seams.short(log[at], ctx.root))
                # each stands as before or as asked for, until aimed again
                f.unsettled = True
            else:
                f.unsettled = False
            f.aimed = [list(a) + [(tuple(op['sun']), f.th)] for a in f.aimed]
            ctx.event(what, out)
            continue       # judged once it is aimed again
        elif op['op'] == 'conc':
            if len(fields) < 2:
                raise S.Invalid('field')
            sch = seams.Scheduler(ctx.lines, op['sched'])
            res = sch.run([lambda q=q: fields[q].real.aim_to_sun(*op['suns'][q]) for q in (0, 1)])
            ctx.fault('thread switch', len(sch.switches))
            for q in (0, 1):
                if res[q][0] == 'exc':
                    raise res[q][1]
                fields[q].aimed = [[(tuple(op['suns'][q]), fields[q].th)]]*len(fields[q].pos)
                fields[q].unsettled = False
        if op['op'] in ('aim', 'day'):
            f.unsettled = False
        for q in fields:
            if not getattr(q, 'unsettled', False):
                q.judge(what)
        ctx.event(what, f.real.get_heliostats()[0].get_transform().tolist())
        ctx.state(op['op'], len(f.pos), op.get('sun') or op.get('suns'), f.th)
