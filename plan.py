"""What each check runs, and the words its evidence is described with."""
import os


REAL = ['tracer engine', 'ray tree', 'ray bundles', 'surfaces', 'geometry managers', 'optics callables',
        'assemblies and frames', 'ready-made models', 'numpy']
A = ['steps that rounding decides (ties, aperture edges, tangency, critical angle) are not judged and are counted '
     'as ambiguous', 'the package is run as translated to Python 3 by the build']


def P(runs, thorough, rule, real=REAL, stub=('user callables', 'the random generator where stated'), assume=A, **kw):
    d = dict(runs=runs, thorough=thorough, rule=rule, real=list(real), stub=list(stub), assume=list(assume))
    d.update(kw)
    return d


TREE = ('a state is the shape of a recorded ray tree (rays and parents per bounce) with the kinds of surface hit, '
        'the source line of an injected fault, or the list of source lines at which threads were switched')
HIST = 'a state is the operation performed together with what it was performed on and the fault or switch that met it: '
POSES = ['assemblies and frames', 'surfaces', 'geometry managers', 'ready-made models', 'tracer engine', 'numpy']
B = A[1:]
PLAN = {
    'C01': P(5000, 400000, TREE),
    'C02': P(5000, 400000, TREE),
    'C03': P(5000, 400000, TREE),
    'C04': P(4800, 400000, TREE),
    'C05': P(3200, 200000, TREE),
    'C06': P(5000, 200000, 'a state is the source line at which a trace was cut short, with the kind of fault, the bounce '
             'and the kind of operation that follows', stub=['user callables, user surfaces', 'allocation failures']),
    'C07': P(2000, 200000, 'a state is the list of source lines at which the scheduler switched threads, with what the '
             'threads share', stub=['user callables', 'the thread scheduler']),
    'C08': P(4000, 200000, HIST + 'level of the edited part, way of editing, depth of the tree', real=POSES),
    'C09': P(4400, 400000, TREE),
    'C10': P(4000, 200000, TREE),
    'C11': P(3600, 200000, 'a state is the kind of source, the random stream and the class of its arguments',
             real=['random sources', 'rotation helpers', 'numpy'], stub=['numpy.random where the stream is not real'],
             assume=B + ['a distribution is rejected only at a level that no seed in use reaches by chance (1e-9)']),
    'C12': P(3600, 400000, TREE, stub=['user callables', 'numpy.random where the stream is not real']),
    'C13': P(9000, 400000, 'a state is a pattern of offered, hit, owned and irrelevant rays of one bounce, with the fault '
             'or switch that met it', real=['tracer engine', 'ray tree', 'ray bundles', 'assemblies and objects', 'numpy'],
             stub=['surfaces and optics (scripted)', 'ownership and relevancy answers (scripted)'], assume=B),
    'C14': P(5000, 400000, TREE),
    'C15': P(6000, 300000, HIST + 'field size, pose of the field, aiming and target changes since',
             real=['heliostat field', 'one-sided mirrors', 'assemblies and frames', 'tracer engine', 'numpy'],
             stub=['nothing'], assume=B),
    'C16': P(9000, 400000, HIST + 'property set, form of the selector, number of rays',
             real=['ray bundles', 'tracer engine', 'optics callables', 'numpy'], stub=['nothing'], assume=B),
    'C17': P(4000, 150000, HIST + 'number of surfaces drawn and of segments shown',
             real=['scene view', 'tracer engine and everything below it', 'numpy'],
             stub=['mayavi, traits and tvtk (recording stand-ins)', 'user callables'],
             assume=B + ['removing a plot object twice is harmless, as clear_scene of the original code requires']),
    'C18': P(9000, 400000, HIST + 'number of entries in each tree',
             real=['assembly tree', 'assemblies, objects, surfaces'], stub=['PyQt4 (stand-in with its item and signal rules)'],
             assume=B + ['signals are delivered at once, as between objects of one thread']),
}


def findings():
    r = []
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_findings.txt')) as f:
        for line in f:
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == 'known:':
                r.append((w[1].split('=')[1], w[2].split('=')[1], w[3].strip()))
    return r


def known(prop, violation):
    """What is recorded of this very violation, or None."""
    for p, cls, text in findings():
        if p == prop and cls == violation['cls']:
            return text
    return None


TECH = {
    'C01': 'seeded optical sessions (builds, moves, traces, interrupts, threads) judged ray by ray by a scalar model',
    'C02': 'seeded optical sessions judged ray by ray by a scalar model of reflection and Snell\'s law',
    'C03': 'seeded optical sessions with an energy balance at every recorded hit',
    'C04': 'seeded optical sessions, recorded tree against tags carried by each ray',
    'C05': 'seeded re-orderings, splits and interleavings of the same trace, compared ray by ray',
    'C06': 'interrupts, memory failures and user exceptions at seeded source lines, then comparison with an undisturbed twin',
    'C07': 'seeded line-level interleavings of threads and nested traces, compared with running alone',
    'C08': 'seeded frame-edit histories with faults and threads against a model of the hierarchy',
    'C09': 'seeded sessions with resets, faults and threads against a ledger of hits',
    'C10': 'seeded sessions with overwriting and snapshots of everything passed in and delivered',
    'C11': 'simulated random streams (extreme, constant, real) and seeded statistics',
    'C12': 'simulated random streams (extreme, constant, real) and seeded statistics over sessions',
    'C13': 'scripted surfaces and objects that log the engine\'s calls, against a model of the protocol',
    'C14': 'seeded sessions and closed cavities with a simulated step budget',
    'C15': 'seeded histories of aiming, target and field moves against the mirror law',
    'C16': 'seeded histories of bundle operations and traces against a list-of-records model',
    'C17': 'seeded histories of view actions with failing calls against a recording stand-in of the plotting library',
    'C18': 'seeded histories of tree actions with interrupts against a stand-in of the widget library',
}
NOTE = dict((k, 'seeded search over histories, schedules and faults; a quiet run is not a proof') for k in TECH)
PURE = 'a pure function of its arguments: no schedule, time, I/O, randomness or history for a simulation to vary'
NA = {'N01': PURE, 'N02': PURE, 'N03': PURE, 'N04': PURE, 'N05': PURE, 'N06': PURE}
