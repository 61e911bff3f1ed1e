"""
The simulator's hold on what is nondeterministic in a session: interruption at
an arbitrary line, interleaving of threads at line granularity, the random
generator, and non-termination.

Line events are those of Python's own tracing facility, in files of the tree
under test only, so the seam does not depend on how the code is written. (PyPy
must run with its JIT off: with it, line events get lost at random.)
"""
import random as pyrandom
import sys
import threading


class SimInterrupt(KeyboardInterrupt):
    """Ctrl-C at a simulated instant"""


class SimMemoryError(MemoryError):
    """A failed allocation at a simulated instant"""


class UserFault(Exception):
    """Raised by a simulated user-supplied callable"""


class StepBudget(Exception):
    """The code did not finish in the simulated step budget"""


FAULTS = {'interrupt': SimInterrupt, 'memory': SimMemoryError}


class Lines(object):
    """
    Run a function with a line hook on the files of the tree under test.
    hook(frame) is called at each line; it may raise.
    """
    def __init__(self, root):
        self.root = root

    def tracer(self, hook):
        root = self.root

        def local(frame, event, arg):
            if event == 'line':
                hook(frame)
            return local

        def glob(frame, event, arg):
            if event == 'call' and frame.f_code.co_filename.startswith(root):
                return local
            return None
        return glob

    def run(self, hook, fn, *args):
        old = sys.gettrace()
        sys.settrace(self.tracer(hook))
        try:
            return fn(*args)
        finally:
            sys.settrace(old)


def where(frame):
    return (frame.f_code.co_filename, frame.f_lineno)


def short(w, root):
    f = w[0]
    return '%s:%d' % (f[len(root):].lstrip('/') if f.startswith(root) else f, w[1])


def record_lines(lines, fn, *args, **kw):
    """Run fn, returning (result, list of locations of its line events)."""
    log = []
    limit = kw.get('limit', 2000000)

    def hook(frame):
        log.append((frame.f_code.co_filename, frame.f_lineno))
        if len(log) > limit:
            raise StepBudget()
    r = lines.run(hook, fn, *args)
    return r, log


def pick_instant(log, loc_frac, occ_frac):
    """
    A line event index: uniform over distinct locations first (rare statements
    count as much as those in loops), then over its occurrences.
    """
    if not log:
        return None
    occ = {}
    for i, w in enumerate(log):
        occ.setdefault(w, []).append(i)
    keys = sorted(occ)
    k = keys[min(len(keys) - 1, int(loc_frac*len(keys)))]
    o = occ[k]
    return o[min(len(o) - 1, int(occ_frac*len(o)))]


def run_with_fault(lines, instant, exc, fn, *args):
    """Run fn, raising exc at the given line event. -> (outcome, value)"""
    count = [0]

    def hook(frame):
        count[0] += 1
        if count[0] == instant + 1:
            raise exc('simulated')
    try:
        r = lines.run(hook, fn, *args)
    except exc:
        return 'fault', None
    return 'done', r


def run_with_budget(lines, budget, fn, *args):
    count = [0]

    def hook(frame):
        count[0] += 1
        if count[0] > budget:
            raise StepBudget()
    r = lines.run(hook, fn, *args)
    return r, count[0]


STALL = 20       # seconds; only code that waits for another thread takes so long


class Scheduler(object):
    """
    Runs tasks in real threads, one at a time: a thread runs only while it
    holds the baton, and hands it on exactly where the schedule says, counted
    in line events. schedule: list of [task, number of lines]; when it is used
    up, the remaining tasks run to their end in order.
    """
    def __init__(self, lines, schedule):
        self.lines = lines
        self.schedule = [list(s) for s in schedule]
        self.switches = []      # (task, location) at each forced switch
        self.steps = 0
        self.free = False

    def run(self, tasks):
        n = len(tasks)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.alive = [True]*n
        self.results = [None]*n
        self.quota = 0
        self.pos = 0
        threads = [threading.Thread(target=self._body, args=(i, tasks[i])) for i in range(n)]
        for t in threads:
            t.daemon = True
            t.start()
        nxt = self._next(None)
        while nxt is not None:
            self.sems[nxt].release()
            # until a task ended or the schedule moved on
            if not self.main.acquire(timeout=STALL):
                # The task waits for another one (a lock): let all of them go.
                self.free = True
                for q in self.sems:
                    q.release()
                break
            nxt = self.upcoming
        for t in threads:
            while t.is_alive():
                t.join(1.)
        return self.results

    def _next(self, current):
        """Decide who runs next and for how many lines."""
        while self.pos < len(self.schedule):
            task, lines = self.schedule[self.pos]
            self.pos += 1
            if task < len(self.alive) and self.alive[task] and lines > 0:
                self.quota = lines
                return task
        self.quota = 1 << 60
        for i, a in enumerate(self.alive):
            if a:
                return i
        return None

    def _body(self, i, fn):
        self.sems[i].acquire()

        def hook(frame):
            if self.free:
                return
            self.steps += 1
            self.quota -= 1
            if self.quota <= 0:
                nxt = self._next(i)
                if nxt is not None and nxt != i:
                    self.switches.append((i, frame.f_code.co_filename, frame.f_lineno))
                    self.upcoming = nxt
                    self.main.release()
                    self.sems[i].acquire()
        sys.settrace(self.lines.tracer(hook))
        try:
            try:
                r = ('ok', fn())
            except BaseException as e:
                r = ('exc', e)
        finally:
            sys.settrace(None)
        self.results[i] = r
        self.alive[i] = False
        self.upcoming = self._next(i)
        self.main.release()


class Visits(object):
    """
    Runs one task; at each given line event it is held while another thread
    runs a whole visit from beginning to end.
    """
    def __init__(self, lines, at, visit):
        self.lines, self.at, self.visit = lines, set(at), visit
        self.results, self.where, self.steps = [], [], 0

    def run(self, fn):
        late = []

        def body():
            try:
                r = ('ok', self.visit())
            except BaseException as e:
                r = ('exc', e)
            self.results.append(r)

        def hook(frame):
            if self.steps in self.at and not late:
                t = threading.Thread(target=body)
                t.daemon = True
                t.start()
                t.join(STALL)
                if t.is_alive():        # waits for the held one (a lock): no more visits
                    late.append(t)
                self.where.append((frame.f_code.co_filename, frame.f_lineno))
            self.steps += 1
        try:
            return self.lines.run(hook, fn)
        finally:
            for t in late:
                while t.is_alive():
                    t.join(1.)


_SAVED = {}


def save_random(N):
    for n in RandomSeam.NAMES:
        if hasattr(N.random, n):
            _SAVED[n] = getattr(N.random, n)


def restore_random(N):
    for n, f in _SAVED.items():
        setattr(N.random, n, f)


class RandomSeam(object):
    """
    Replaces numpy's module-level uniform generators. Modes:
      real      numpy's own generator, seeded
      extreme   mixes 0, 1-2**-53, midpoints and tiny values into the stream
      const     one constant value
      low       very few distinct values
    """
    NAMES = ('uniform', 'random_sample', 'random', 'ranf', 'sample', 'rand')

    def __init__(self, N):
        self.N = N
        self.saved = dict((n, getattr(N.random, n)) for n in self.NAMES if hasattr(N.random, n))
        self.calls = 0
        self.injected = 0

    def install(self, mode, seed):
        N = self.N
        N.random.seed(seed % (2**32))
        self.mode = mode
        if mode == 'real':
            return
        self.rng = pyrandom.Random(seed)
        top = 1. - 2.**-53
        self.pool = [0., top, 0.5, 0.25, 0.75, 2.**-53, 1e-9, 1. - 1e-9]
        if mode == 'const':
            self.const = self.rng.choice(self.pool + [self.rng.random()])
        if mode == 'low':
            self.few = [self.rng.choice(self.pool + [self.rng.random()]) for _ in range(3)]
        N.random.uniform = self.uniform
        for n in ('random_sample', 'random', 'ranf', 'sample'):
            if n in self.saved:
                setattr(N.random, n, self.sample)
        N.random.rand = self.rand

    def reseed(self, seed):
        self.N.random.seed(seed % (2**32))
        self.rng = pyrandom.Random(seed)

    def remove(self):
        for n, f in self.saved.items():
            setattr(self.N.random, n, f)

    def draw(self):
        if self.mode == 'const':
            self.injected += 1
            return self.const
        if self.mode == 'low':
            self.injected += 1
            return self.rng.choice(self.few)
        if self.rng.random() < 0.4:
            self.injected += 1
            return self.rng.choice(self.pool)
        return self.rng.random()

    def sample(self, size=None):
        self.calls += 1
        if size is None:
            return self.draw()
        N = self.N
        shape = (size,) if not hasattr(size, '__len__') else tuple(size)
        n = 1
        for s in shape:
            n *= int(s)
        return N.array([self.draw() for _ in range(n)]).reshape(shape)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low)*self.sample(size)

    def rand(self, *shape):
        return self.sample(shape if shape else None)
