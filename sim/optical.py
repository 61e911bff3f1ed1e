"""Generation and running of optical sessions (C01-C04, C09, C12, C14)."""
import scene as S
import session as SS
from linalg import *


class Profile(object):
    """gen(rng, i, tier) -> JSON case; run(ctx, case)"""
    def __init__(self, gen, run):
        self.gen, self.run = gen, run


def mark_wraps(rng, node, p):
    """Make some optics user-written callables."""
    if node.get('t') == 'asm':
        for k in node['kids']:
            mark_wraps(rng, k, p)
    elif node.get('t') == 'obj':
        for q in node['surfs']:
            if rng.random() < p:
                q['o'] = dict(q['o'], wrap=True)


def movable(world):
    return [(list(path), n) for path, n in world.node.walk()
            if not (n.kind == 'surf' and n.compound is not None)]


def gen_bundle(rng, world, count, n, glass=True, energies=None, empty=0.):
    surfs = world.surfs()
    if count > 1 and rng.random() < 0.015:
        count = rng.choice([70, 130, 270])
    elif rng.random() < empty:
        count = 0
    b = {'rays': S.gen_rays(rng, surfs, count, n, glass, energies)}
    r = rng.random()
    if r < 0.1:
        b['fortran'] = True
    elif r < 0.2:
        b['setters'] = True
    elif r < 0.24:
        b['int'] = True
    return b


def energies_in(b):
    return [r[6] for r in b['rays']] or [1.]


def gen_trace(rng, wi, world, spec, mix):
    count = rng.choice(mix.get('counts', (1, 2, 3, 5, 8, 12, 20)))
    b = gen_bundle(rng, world, count, spec['n'], mix.get('glass', True), None, 0.008)
    if rng.random() < 0.08:
        b['nouid'] = True
    if rng.random() < 0.1 and not any(s.o['k'] == 'refr' for s in world.surfs()):
        b['noref'] = True
    reps = rng.choice(mix.get('reps', (1, 1, 2, 2, 3, 4, 5)))
    e = rng.choice(energies_in(b))
    min_e = rng.choice([0., 0., 1e-9, 0.05, e/4., e/2., e, 0.75*e])
    op = {'op': 'trace', 'w': wi, 'b': b, 'reps': reps, 'min_e': min_e,
          'eng': rng.choice(['new', 0, 0, 1]), 'seed': rng.randrange(1 << 30)}
    if rng.random() < mix.get('untree', 0.08):
        op['tree'] = False
    if rng.random() < mix.get('hist', 0.1):
        op['hist'] = [[rng.choice([None, round(rng.random(), 3)]), round(rng.random(), 3)]
                      for _ in range(rng.randint(1, 4))]
    return op


def gen_sched(rng, n):
    """Interleaving: bursts from very short to long."""
    kind = rng.choice(['fine', 'coarse', 'mixed', 'one'])
    out = []
    if kind == 'one':
        a = rng.randrange(n)
        return [[a, rng.randint(1, 1500)], [(a + 1) % n, rng.randint(1, 3000)]]
    for _ in range(rng.choice([4, 10, 40, 120])):
        q = {'fine': (1, 12), 'coarse': (50, 600), 'mixed': (1, 300)}[kind]
        out.append([rng.randrange(n), rng.randint(*q)])
    return out


DEFAULT = {'move': 3, 'fault': 2, 'userfault': 1, 'nested': 1, 'conc': 1, 'trace': 8}


def gen_hall(rng, mix):
    """Mirrors facing each other, and very many bounces."""
    opts = [o for o in mix.get('opts', S.OPTS) if o not in ('refr', 'rr', 'lr')] or ['refl']
    def plate(z, turn):
        o = S.gen_opt(rng, opts, 1.5)
        if o.get('a', 0.) > 0.3:
            o['a'] = 0.1
        if o['k'] in ('lamb', 'lr'):
            o = {'k': 'refl', 'a': 0.}
        g = rng.choice([{'k': 'rect', 'w': 400., 'h': 400.}, {'k': 'flat'}, {'k': 'round', 'R': 200.}])
        return {'g': g, 'o': o, 'T': {'R': turn, 'p': [0., 0., z]}, 'via': 'ctor'}
    gap = S.rnd(rng, 0.5, 3.)
    objs = [{'t': 'obj', 'T': None, 'via': 'st', 'surfs': [plate(0., 'I')]},
            {'t': 'obj', 'T': None, 'via': 'st', 'surfs': [plate(gap, 'x180')]}]
    root = {'t': 'asm', 'T': S.gen_T(rng, 2.), 'via': 'st', 'kids': objs}
    spec = {'n': 1.5, 'root': root}
    T = T4(root['T'])
    rays = []
    for _ in range(rng.randint(1, 4)):
        p = xform_pt(T, (rng.uniform(-1, 1), rng.uniform(-1, 1), gap*rng.uniform(0.2, 0.8)))
        d = xform_dir(T, unit((rng.uniform(-.7, .7), rng.uniform(-.7, .7), rng.choice([-1., 1.]))))
        rays.append(list(p) + list(d) + [rng.choice([1., 2.]), 1.])
    reps = rng.choice([9, 17, 33, 60])
    op = {'op': 'trace', 'w': 0, 'b': {'rays': rays}, 'reps': reps, 'min_e': rng.choice([0., 1e-9, 0.3]),
          'eng': 'new', 'seed': 1,
          'hist': [[rng.choice([None, round(rng.random(), 3)]), round(rng.random(), 3)] for _ in range(3)]}
    return {'worlds': [spec], 'ops': [op, dict(op, eng=0), dict(op, eng=0, tree=rng.random() < 0.5)], 'share': False}


def gen_rebuild(rng, wi, world, spec, mix):
    """Something is added to the scene, taken off it or hung elsewhere."""
    nodes = dict((path, n) for path, n in world.node.walk())
    plain = [p for p, n in nodes.items() if n.extra.get('plain')]
    loose = [p for p, n in nodes.items() if p and p[:-1] in plain and len(nodes[p[:-1]].kids) > 1]
    opts, kinds = mix.get('opts', S.OPTS), mix.get('kinds', S.GEOMS)
    if mix.get('glass', True) is False or any(n.o['k'] == 'refr' and 'n0' in n.o for n in nodes.values() if n.kind == 'surf'):
        opts = [o for o in opts if o != 'refr'] or ['refl']
    via = rng.choice(['grow', 'drop', 'shift', 'swap'])
    op = {'op': 'move', 'w': wi, 'via': via}
    if via == 'grow':
        op['path'] = list(rng.choice(plain))
        o = S.gen_obj(rng, kinds, opts, spec['n'], 3., 2)
        op['new'] = o['surfs'][0] if nodes[tuple(op['path'])].kind == 'obj' else o
        if 'g' not in op['new'] and rng.random() < 0.2:
            op['new'] = {'t': 'asm', 'T': S.gen_T(rng, 2.), 'via': 'st', 'kids': [o]}
        return op
    if not loose:
        return None
    path = rng.choice(loose)
    op['path'] = list(path)
    if via == 'drop' and not any(n.kind == 'surf' and p[:len(path)] != path for p, n in nodes.items()):
        return None
    if via == 'swap':
        o = S.gen_obj(rng, kinds, opts, spec['n'], 3., 1)
        op['new'] = o['surfs'][0] if nodes[path].kind == 'surf' else o
    if via == 'shift':
        kind = 'obj' if nodes[path].kind == 'surf' else 'asm'
        to = [p for p in plain if nodes[p].kind == kind and p[:len(path)] != path]
        if not to:
            return None
        op['to'] = list(rng.choice(to))
        op['T'] = S.gen_T(rng, 3.)
    return op


def gen_move(rng, wi, world, spec, mix, rebuild=0.3):
    path, node = rng.choice(movable(world))
    op = {'op': 'move', 'w': wi, 'path': path, 'T': S.gen_T(rng, 3.),
          'via': rng.choice(['st', 'loc', 'rot'])}
    if rng.random() < 0.12:
        round_ = [p for p, nd in movable(world) if nd.kind == 'surf' and nd.g['k'] in S.RESHAPE['radius']]
        tris = [p for p, nd in movable(world) if nd.kind == 'surf' and nd.g['k'] == 'tri']
        if round_:
            op = {'op': 'move', 'w': wi, 'path': rng.choice(round_), 'via': 'radius', 'R': S.rnd(rng, 0.3, 3)}
        elif tris:
            op = {'op': 'move', 'w': wi, 'path': rng.choice(tris), 'via': 'verts',
                  'verts': S.gen_geom(rng, ('tri',))['verts']}
    if rng.random() < rebuild:
        op = gen_rebuild(rng, wi, world, spec, mix) or op
    return op


def gen_session(rng, mix):
    if rng.random() < 0.012:
        return gen_hall(rng, mix)
    ops_w = dict(DEFAULT)
    ops_w.update(mix.get('ops', {}))
    names = sorted(k for k in ops_w if ops_w[k])
    weights = [ops_w[k] for k in names]
    nops = rng.choice(mix.get('nops', (1, 2, 3, 4)))
    plan = [rng.choices(names, weights)[0] for _ in range(nops)]
    if rng.random() < mix.get('drill', 0.):
        plan = rng.choice([['trace', 'query', 'clear', 'trace', 'query'],
                           ['trace', 'query', 'trace', 'query', 'clear', 'query'],
                           ['trace', 'query', 'clear', 'move', 'trace', 'query', 'clear', 'trace'],
                           ['fault', 'query', 'clear', 'trace', 'query'],
                           ['conc', 'query', 'clear', 'conc', 'query']] + [['burst', 'query']]*mix.get('bursts', 0))
    again = ops_w.get('move') and rng.random() < 0.1
    if again:
        plan = ['trace', 'move', 'trace'] + ['move', 'trace']*rng.choice([0, 0, 1, 4])
    if not any(p in ('trace', 'conc', 'nested') for p in plan[-1:]):
        plan.append('trace')
    if mix.get('tail'):
        plan += mix['tail']
    board = mix.get('drill') and rng.random() < 0.06
    if board:
        plan = ['trace', 'query', 'move', 'clear', 'trace', 'query'][rng.choice([0, 0, 1]):]
    two = any(p in ('conc', 'nested') for p in plan)
    specs = []
    for i in range(2 if two else 1):
        models = ('minidish', 'petal', 'hlr') if board else mix.get('models', S.MODELS)
        sc = S.gen_scene(rng, mix.get('opts', S.OPTS), mix.get('kinds', S.GEOMS), models,
                         rng.choice(mix.get('nobj', (1, 2, 3, 4))) if i == 0 else
                         rng.randint(1, 2), rng.choice([0, 1, 2, 2]), mix.get('spread', 4.))
        mark_wraps(rng, sc['root'], 0.3 if ('userfault' in plan or 'nested' in plan) else 0.05)
        specs.append(sc)
    worlds = [SS.World(S.NoEnv(), sp) for sp in specs]
    case = {'worlds': specs, 'ops': [], 'share': rng.random() < 0.5}
    if mix.get('rand'):
        case['rand'] = rng.choice(mix['rand'])
        case['rseed'] = rng.randrange(1 << 30)
    wraps = [sum(1 for p, n in w.node.walk() if n.kind == 'surf' and n.o.get('wrap')) for w in worlds]
    last = {}
    for name in plan:
        wi = 0 if len(worlds) == 1 or rng.random() < 0.75 else 1
        if name == 'trace':
            op = gen_trace(rng, wi, worlds[wi], specs[wi], mix)
            if again:
                op['eng'] = 0
            if wi in last and rng.random() < (0.5 if again else 0.3):
                # the bundle object traced before, as it was or refilled
                op['same'] = rng.choice(['same', 'same', 'refill'])
                if last[wi]['b'].get('noref') and any(q.o['k'] == 'refr' for q in worlds[wi].surfs()):
                    del op['same']
                elif op['same'] == 'same':
                    op['b'], op['min_e'] = last[wi]['b'], last[wi]['min_e']
            last[wi] = op
        elif name == 'move':
            op = gen_move(rng, wi, worlds[wi], specs[wi], mix, 0.7 if again else 0.3)
            boards = [p for p, n in worlds[wi].node.walk() if 'hist' in n.extra]
            if boards and mix.get('drill') and rng.random() < 0.6:
                p = rng.choice(boards)
                op = {'op': 'move', 'w': wi, 'path': list(p[:rng.randint(0, len(p))]), 'T': S.gen_T(rng, 3.),
                      'via': rng.choice(['st', 'loc', 'rot'])}
            worlds[wi].move(op)
            wraps[wi] = sum(1 for p, n in worlds[wi].node.walk() if n.kind == 'surf' and n.o.get('wrap'))
        elif name == 'fault':
            op = gen_trace(rng, wi, worlds[wi], specs[wi], mix)
            op.update(op='fault', kind=rng.choice(['interrupt', 'memory']),
                      loc=round(rng.random(), 4), occ=round(rng.random(), 4), tree=True)
            op['reps'] = min(op['reps'], 4)
            last[wi] = op
        elif name == 'userfault':
            if not wraps[wi]:
                continue
            op = gen_trace(rng, wi, worlds[wi], specs[wi], mix)
            op.update(op='userfault', opt=rng.randrange(wraps[wi]), fuse=rng.randint(1, 3),
                      late=rng.random() < 0.5, tree=True)
            last[wi] = op
        elif name == 'nested':
            if not wraps[0]:
                continue
            op = gen_trace(rng, 0, worlds[0], specs[0], mix)
            inner = gen_trace(rng, 1, worlds[1], specs[1], mix)
            inner['tree'] = True
            op.update(op='nested', opt=rng.randrange(wraps[0]), tree=True, inner=inner)
        elif name == 'conc':
            parts = [gen_trace(rng, k, worlds[k], specs[k], mix) for k in (0, 1)]
            for q in parts:
                q['tree'] = True
                q['reps'] = min(q['reps'], 3)
                if q['eng'] == 'new':
                    q['eng'] = 0
            op = {'op': 'conc', 'parts': parts, 'sched': gen_sched(rng, 2), 'seed': rng.randrange(1 << 30)}
        elif name == 'burst':
            op = gen_trace(rng, wi, worlds[wi], specs[wi], dict(mix, counts=(1, 2, 3), reps=(1, 2), hist=0, untree=0))
            op.update(op='burst', n=rng.choice([9, 18, 35, 70, 140]))
        elif name == 'query':
            op = {'op': 'query', 'again': rng.random() < 0.3, 'bins': rng.choice([1, 3, 8])}
        elif name == 'clear':
            op = {'op': 'reset', 'r': 'all'}
        elif name == 'reset':
            if not any(w.receivers() for w in worlds):
                continue
            op = {'op': 'reset', 'r': rng.randrange(8)}
        else:
            raise KeyError(name)
        case['ops'].append(op)
    return case


def session_profile(mix, accept, cls=SS.Session):
    def gen(rng, i, tier):
        return gen_session(rng, mix)

    def run(ctx, case):
        s = cls(ctx, case, None, accept)
        s.run()
    return Profile(gen, run)
