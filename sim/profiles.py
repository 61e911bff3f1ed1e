"""The simulation profile that decides each property."""
import scene as S
import session as SS
from optical import *
import histories as H
import poses
import sampling
import protocol
import view
import bundles
import heliostats
import widget

PROFILES = {
    'C01': session_profile({}, ['C01', 'C02:nan']),
    'C02': session_profile({'opts': S.OPTS + ('refr', 'refr', 'refr')}, ['C02']),
    'C03': session_profile({'opts': S.OPTS + ('ar', 'rr', 'lamb', 'lr')}, ['C03']),
    'C04': session_profile({'untree': 0.2, 'hist': 0.6, 'reps': (0, 1, 2, 3, 4, 5)}, ['C04', 'C01']),
    'C09': session_profile({'drill': 0.4, 'bursts': 1, 'opts': S.OPTS + ('rr',)*6, 'tail': ['query'],
                            'ops': {'query': 3, 'reset': 2}, 'models': S.MODELS + ('minidish', 'recv1')},
                           ['C09']),
    'C12': session_profile({'opts': ('lamb', 'lr', 'lamb', 'lr', 'refl'), 'tail': ['query'],
                            'rand': ('real', 'extreme', 'const', 'low')}, ['C12', 'C03:energy', 'C01', 'C09']),
    'C14': session_profile({'reps': (0, 1, 2, 3, 5)}, ['C14', 'C01:missed']),
    'C05': Profile(H.gen_c05, H.run_c05),
    'C06': Profile(H.gen_c06, H.run_c06),
    'C07': Profile(H.gen_c07, H.run_c07),
    'C08': Profile(poses.gen_c08, poses.run_c08),
    'C10': Profile(poses.gen_c10, poses.run_c10),
    'C13': Profile(protocol.gen_c13, protocol.run_c13),
    'C15': Profile(heliostats.gen_c15, heliostats.run_c15),
    'C16': Profile(bundles.gen_c16, bundles.run_c16),
    'C17': Profile(view.gen_c17, view.run_c17),
    'C18': Profile(widget.gen_c18, widget.run_c18),
    'C11': Profile(sampling.gen_c11, sampling.run_c11),
}


def mixed(base, every, gen, run, key):
    def g(rng, i, tier):
        return gen(rng) if i % every == every - 1 else base.gen(rng, i, tier)

    def r(ctx, case):
        return run(ctx, case) if case.get(key) else base.run(ctx, case)
    return Profile(g, r)


def first(base, gen, run, key):
    """Run 0 is a fixed scenario."""
    def g(rng, i, tier):
        return gen(rng) if i == 0 else base.gen(rng, i, tier)

    def r(ctx, case):
        return run(ctx, case) if case.get(key) else base.run(ctx, case)
    return Profile(g, r)


def crowd(accept):
    return (lambda rng: H.gen_crowd(rng)), (lambda ctx, case: H.run_crowd(ctx, case, accept)), 'crowd'


PROFILES['C04'] = mixed(PROFILES['C04'], 120, *crowd(['C04', 'C05']))
PROFILES['C05'] = mixed(PROFILES['C05'], 120, *crowd(['C05']))
PROFILES['C09'] = mixed(PROFILES['C09'], 120, *crowd(['C09', 'C05']))
PROFILES['C12'] = mixed(PROFILES['C12'], 18, sampling.gen_c12_stat, sampling.run_c12_stat, 'stat')
PROFILES['C14'] = mixed(PROFILES['C14'], 4, sampling.gen_c14_cavity, sampling.run_c14_cavity, 'cavity')


def gen_ties(rng):
    plate = {'g': {'k': 'rect', 'w': 4., 'h': 4.}, 'o': {'k': 'refl', 'a': 0.5}, 'T': None}
    return {'tie': True, 'worlds': [{'n': 1., 'root': {'t': 'asm', 'T': None, 'via': 'st', 'kids': [
        {'t': 'obj', 'T': None, 'via': 'st', 'surfs': [plate]}, {'t': 'obj', 'T': None, 'via': 'st', 'surfs': [plate]}]}}],
        'rays': [[0.25, 0.5, 1., 0., 0., -1., 1., 1.]]}


def run_ties(ctx, case):
    """Recorded finding: a ray that meets two coincident surfaces."""
    w = SS.World(ctx.env, case['worlds'][0])
    eng = ctx.env.TracerEngine(w.node.real)
    eng.ray_tracer(S.real_bundle(ctx.env, {'rays': case['rays']}), 1, 0.)
    e = eng.tree[1].get_energy().tolist()
    if sum(e) > 0.5 + 1e-12:
        ctx.violate('tie:coincident-plates', 'outgoing energies %r of 1.0' % e)
    ctx.event('tie', e)


PROFILES['C03'] = first(PROFILES['C03'], gen_ties, run_ties, 'tie')
