"""Shared plumbing of the property profiles."""
import hashlib
import json
import random
import scene as S
import seams


class Violation(object):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg


class Ctx(object):
    """One simulated run: the environment, its seams, its counters."""
    def __init__(self, env, root):
        self.env = env
        self.root = root
        self.lines = seams.Lines(root)
        self.errstate = env.N.geterr()
        self.invalid = False
        seams.save_random(env.N)
        self.reset()

    def reset(self):
        self.violations = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.events = []
        self.steps = 0

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *parts):
        self.states.add(h64(repr(parts)))

    def event(self, *what):
        """The deterministic event log of the run."""
        self.events.append(repr(what))

    def cleanup(self):
        """Whatever happened, leave the process as a fresh run expects it."""
        import sys
        sys.settrace(None)
        N = self.env.N
        N.seterr(**self.errstate)
        seams.restore_random(N)

    def violate(self, cls, msg):
        self.violations.append(Violation(cls, msg))


def h64(s):
    return hashlib.sha1(s.encode('utf-8')).hexdigest()[:16]


def rng_for(seed):
    return random.Random(seed)


def take_report(ctx, rep, accept, prefix=''):
    for cls, msg in rep.issues:
        if any(cls.startswith(a) for a in accept):
            ctx.violate(cls, prefix + msg)
    ctx.steps += rep.steps
    ctx.probe('ray steps judged', rep.steps)
    ctx.probe('ray steps skipped as ambiguous', rep.ambig)
    ctx.probe('hits', rep.hits)
    ctx.probe('escapes', rep.escapes)
    for k, v in rep.kinds.items():
        ctx.probe('hit ' + k, v)
    for b in rep.branches:
        ctx.probe(b)
