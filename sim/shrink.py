"""
Minimising a failing case: a JSON value. Lists under known keys lose elements,
numbers under known keys get smaller, transforms become the identity.
"""
import copy
import time

LISTS = ('ops', 'rays', 'kids', 'surfs', 'sched', 'worlds', 'faces', 'parts', 'script', 'pos',
         'acts', 'visits', 'sites', 'props', 'rows', 'hist', 'objs')
DROP = ('T', 'share', 'wrap', 'swap', 'aim', 'int', 'fortran', 'noref', 'nouid', 'setters', 'hist')
SMALL = ('reps', 'n', 'count')


def places(x, path=()):
    """(path, key kind) of everything that can be simplified"""
    if isinstance(x, dict):
        for k in sorted(x):
            v = x[k]
            if k in LISTS and isinstance(v, list):
                yield path + (k,), 'list'
            if k in DROP and v:
                yield path + (k,), 'drop'
            if k in SMALL and isinstance(v, int) and v > 1:
                yield path + (k,), 'small'
            for p in places(v, path + (k,)):
                yield p
    elif isinstance(x, list):
        for i, v in enumerate(x):
            for p in places(v, path + (i,)):
                yield p


def get(x, path):
    for k in path:
        x = x[k]
    return x


def put(x, path, v):
    y = copy.deepcopy(x)
    t = y
    for k in path[:-1]:
        t = t[k]
    t[path[-1]] = v
    return y


def minimise(case, fails, seconds):
    end = time.time() + seconds
    tried = 0
    changed = True
    while changed and time.time() < end:
        changed = False
        for path, kind in sorted(places(case), key=lambda p: (len(p[0]), repr(p[0]))):
            if time.time() > end:
                break
            try:
                v = get(case, path)
            except (KeyError, IndexError, TypeError):
                continue
            if kind == 'list':
                if not isinstance(v, list):
                    continue
                chunk = max(1, len(v)//2)
                while chunk >= 1 and time.time() < end:
                    i = 0
                    while i < len(v) and time.time() < end:
                        cand = put(case, path, v[:i] + v[i + chunk:])
                        tried += 1
                        if fails(cand):
                            case, v, changed = cand, v[:i] + v[i + chunk:], True
                        else:
                            i += chunk
                    chunk //= 2
            elif kind == 'drop' and v:
                cand = put(case, path, None)
                tried += 1
                if fails(cand):
                    case, changed = cand, True
            elif kind == 'small':
                for w in range(1, v):
                    if time.time() > end or w > 6:
                        break
                    cand = put(case, path, w)
                    tried += 1
                    if fails(cand):
                        case, changed = cand, True
                        break
    return case, tried
