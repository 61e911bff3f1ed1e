"""
C18: the assembly tree on a stand-in of the widget library. The real code is
tracer.qt.assembly_tree with the assemblies, objects and surfaces it shows.
"""
import inspect
import sys
import types
import scene as S
import seams


class Signal(object):
    """As a bound signal of the widget library: each slot gets as many arguments as it takes."""
    def __init__(self):
        self.slots = []

    def connect(self, slot, *a, **kw):
        self.slots.append(slot)

    def disconnect(self, slot=None):
        if slot is None:
            if not self.slots:
                raise TypeError('disconnect() failed')
            del self.slots[:]
        elif slot in self.slots:
            self.slots.remove(slot)
        else:
            raise TypeError('disconnect() failed')

    def emit(self, *args):
        for s in list(self.slots):
            s(*args[:takes(s, len(args))])


def takes(fn, most):
    try:
        sig = inspect.signature(fn)
    except (TypeError, ValueError):
        return most
    n = 0
    for p in sig.parameters.values():
        if p.kind == p.VAR_POSITIONAL:
            return most
        if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
            n += 1
    return min(n, most)


class Qt(object):
    ItemIsSelectable = 1
    ItemIsEditable = 2
    ItemIsDragEnabled = 4
    ItemIsDropEnabled = 8
    ItemIsUserCheckable = 16
    ItemIsEnabled = 32
    DisplayRole, EditRole, UserRole = 0, 2, 32


class QTreeWidgetItem(object):
    def __init__(self, *args):
        self._texts, self._kids, self._up, self._tree, self._gone = [], [], None, None, False
        self._flags = 1 | 4 | 8 | 16 | 32
        for a in args:
            if isinstance(a, QTreeWidgetItem):
                a.addChild(self)
            elif isinstance(a, QTreeWidget):
                a.addTopLevelItem(self)
            elif isinstance(a, (list, tuple)):
                for t in a:
                    if not isinstance(t, str):
                        raise TypeError('a list of strings is expected')
                self._texts = list(a)

    def _live(self):
        if self._gone:
            raise RuntimeError('wrapped C/C++ object of type QTreeWidgetItem has been deleted')

    def _root(self):
        n = self
        while n._up is not None:
            n = n._up
        return n._tree

    def _changed(self, column):
        t = self._root()
        if t is not None and not t._blocked:
            t.itemChanged.emit(self, column)

    def text(self, column):
        self._live()
        return self._texts[column] if column < len(self._texts) else ''

    def setText(self, column, text):
        self._live()
        if not isinstance(text, str):
            raise TypeError('a string is expected')
        while len(self._texts) <= column:
            self._texts.append('')
        self._texts[column] = text
        self._changed(column)

    def data(self, column, role):
        return self.text(column)

    def setData(self, column, role, value):
        self.setText(column, value)

    def flags(self):
        self._live()
        return self._flags

    def setFlags(self, flags):
        self._live()
        self._flags = flags
        self._changed(0)

    def setExpanded(self, on):
        self._live()

    def setToolTip(self, column, text):
        self._live()

    def addChild(self, item):
        self.insertChild(len(self._kids), item)

    def insertChild(self, index, item):
        self._live()
        item._live()
        if item._up is not None or item._tree is not None:
            return
        item._up = self
        self._kids.insert(index, item)

    def addChildren(self, items):
        for i in items:
            self.addChild(i)

    def child(self, index):
        self._live()
        return self._kids[index] if 0 <= index < len(self._kids) else None

    def childCount(self):
        self._live()
        return len(self._kids)

    def indexOfChild(self, item):
        return self._kids.index(item) if item in self._kids else -1

    def parent(self):
        self._live()
        return self._up

    def treeWidget(self):
        self._live()
        return self._root()

    def takeChildren(self):
        self._live()
        r, self._kids = self._kids, []
        for i in r:
            i._up = None
        return r

    def _delete(self):
        for i in self._kids:
            i._delete()
        self._gone = True


class QTreeWidget(object):
    def __init__(self, *a):
        self._top, self._blocked = [], False
        self.itemChanged = Signal()

    def clear(self):
        for i in self._top:
            i._delete()
        self._top = []

    def addTopLevelItem(self, item):
        self.insertTopLevelItem(len(self._top), item)

    def addTopLevelItems(self, items):
        for i in items:
            self.addTopLevelItem(i)

    def insertTopLevelItem(self, index, item):
        item._live()
        if item._up is None and item._tree is None:
            item._tree = self
            self._top.insert(index, item)

    def topLevelItem(self, index):
        return self._top[index] if 0 <= index < len(self._top) else None

    def topLevelItemCount(self):
        return len(self._top)

    def expandItem(self, item):
        item._live()

    def expandAll(self):
        pass

    def blockSignals(self, on):
        old, self._blocked = self._blocked, bool(on)
        return old

    def setHeaderLabels(self, *a):
        pass

    setColumnCount = setHeaderLabel = setHeaderHidden = setEditTriggers = setUpdatesEnabled = update = setHeaderLabels


class Anything(object):
    def __init__(self, *a, **kw):
        pass


def install():
    qt = types.ModuleType('PyQt4')
    qt.__path__ = []
    core = types.ModuleType('PyQt4.QtCore')
    core.Qt = Qt
    core.QObject = Anything
    gui = types.ModuleType('PyQt4.QtGui')
    gui.QTreeWidget, gui.QTreeWidgetItem, gui.QWidget, gui.QApplication = QTreeWidget, QTreeWidgetItem, Anything, Anything
    qt.QtCore, qt.QtGui = core, gui
    sys.modules['PyQt4'], sys.modules['PyQt4.QtCore'], sys.modules['PyQt4.QtGui'] = qt, core, gui


def module():
    if 'PyQt4' not in sys.modules:
        install()
    import tracer.qt.assembly_tree as t
    return t


# ------------------------------------------------------------------ cases

NAMES = ['Receiver', 'Dish', '', 'Object 1', 'Surface 0', 'Assembly 0', 'Top assembly', 'Subassemblies', 'Optical objects',
         'None', '0', 'Dish', 'a b  c', 'mirror \u00b5']


def gen_tags(rng):
    r = rng.random()
    if r < 0.6:
        return None
    if r < 0.8:
        return {'caption': rng.choice(NAMES)}
    if r < 0.9:
        return {}
    return {'caption': rng.choice(NAMES), 'note': 'kept'} if rng.random() < 0.5 else {'note': 'kept'}


def gen_item(rng, depth, kind=None):
    kind = kind or rng.choice(['asm', 'obj', 'obj'] if depth else ['obj'])
    if kind == 'surf':
        return {'t': 'surf', 'tags': gen_tags(rng)}
    if kind == 'obj':
        return {'t': 'obj', 'tags': gen_tags(rng), 'kids': [gen_item(rng, 0, 'surf') for _ in range(rng.choice([0, 1, 1, 2, 4]))]}
    return {'t': 'asm', 'tags': gen_tags(rng),
            'kids': [gen_item(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 6]))]}


def gen_c18(rng, i, tier):
    case = {'asms': [gen_item(rng, 3, 'asm') for _ in range(rng.choice([1, 2, 3]))], 'trees': rng.choice([1, 1, 2]), 'ops': []}
    case['ops'].append({'op': 'show', 't': 0, 'a': 0})
    for _ in range(rng.choice([2, 5, 10, 20, 40])):
        r = rng.random()
        if r < 0.3:
            op = {'op': 'show', 't': rng.randrange(2), 'a': rng.randrange(4), 'sub': rng.random() if rng.random() < 0.2 else None}
            if rng.random() < 0.2:
                op['fault'] = [rng.choice(['interrupt', 'memory']), round(rng.random(), 4), round(rng.random(), 4)]
        elif r < 0.6:
            op = {'op': 'rename', 't': rng.randrange(2), 'k': round(rng.random(), 4), 'name': rng.choice(NAMES),
                  'dup': rng.random() < 0.2}
        elif r < 0.65:
            op = {'op': 'category', 't': rng.randrange(2), 'k': round(rng.random(), 4), 'name': rng.choice(NAMES)}
        elif r < 0.7:
            op = {'op': 'flag', 't': rng.randrange(2), 'k': round(rng.random(), 4)}
        elif r < 0.76:
            op = {'op': 'tag', 't': rng.randrange(2), 'k': round(rng.random(), 4), 'name': rng.choice(NAMES),
                  'tag': rng.choice(['caption', 'caption', 'note'])}
        elif r < 0.9:
            op = {'op': 'grow', 'k': round(rng.random(), 4), 'new': gen_item(rng, 2), 'surf': gen_item(rng, 0, 'surf')}
        elif r < 0.95:
            op = {'op': 'drop', 'k': round(rng.random(), 4)}
        else:
            op = {'op': 'shift', 'k': round(rng.random(), 4)}
        case['ops'].append(op)
    return case


class Item(object):
    """An item of the model with its caption as the user should see it."""
    def __init__(self, env, s):
        N = env.N
        self.kind = s['t']
        self.kids = []
        self.caption = (s['tags'] or {}).get('caption')
        self.note = (s['tags'] or {}).get('note')
        if self.kind == 'surf':
            from tracer.flat_surface import RectPlateGM
            from tracer import optics_callables
            from tracer.surface import Surface
            self.real = Surface(RectPlateGM(1., 1.), optics_callables.Reflective(0.))
        elif self.kind == 'obj':
            from tracer.object import AssembledObject
            self.real = AssembledObject(surfs=[])
        else:
            from tracer.assembly import Assembly
            self.real = Assembly()
        if s['tags'] is not None:
            self.real._tree_tags = dict(s['tags'])
        for k in s.get('kids', ()):
            self.add(Item(env, k))

    def add(self, item):
        if item.kind == 'surf':
            self.real.add_surface(item.real)
        elif item.kind == 'obj':
            self.real.add_object(item.real)
        else:
            self.real.add_assembly(item.real)
        self.kids.append(item)

    def remove(self, item):
        l = {'surf': self.real.get_surfaces, 'obj': self.real.get_local_objects,
             'asm': getattr(self.real, 'get_assemblies', None)}[item.kind]()
        l[:] = [x for x in l if x is not item.real]
        self.kids.remove(item)

    def of(self, kind):
        return [k for k in self.kids if k.kind == kind]

    def walk(self):
        yield self
        for k in self.kids:
            for x in k.walk():
                yield x


WORD = {'surf': 'Surface', 'obj': 'Object', 'asm': 'Assembly'}


def defaults(item):
    """Captions by position, for the parts of a shown item which have none."""
    out = {}
    for x in item.walk():
        for kind in WORD:
            for i, k in enumerate(x.of(kind)):
                if k.caption is None:
                    out[id(k)] = '%s %d' % (WORD[kind], i)
    return out


def pick(seq, frac):
    return seq[min(len(seq) - 1, int(frac*len(seq)))] if seq else None


class Desk(object):
    def __init__(self, ctx, case):
        self.ctx, self.env = ctx, ctx.env
        mod = module()
        self.asms = [Item(ctx.env, a) for a in case['asms']]
        self.trees = [mod.AssemblyTree() for _ in range(case['trees'])]
        # what is shown: list of (widget item, model item) by tree, and the shown model item
        self.shown = [None]*len(self.trees)
        self.entries = [[] for _ in self.trees]
        self.categories = [[] for _ in self.trees]

    def bad(self, cls, msg):
        self.ctx.violate('C18:' + cls, msg)

    def everything(self):
        return [x for a in self.asms for x in a.walk()]

    def captions(self, what):
        """Stored captions are those of the model."""
        for x in self.everything():
            got = self.trees[0].get_tag(x.real, 'caption')
            if got != x.caption and not (x.caption is None and got is None):
                self.bad('caption', '%s: %s is captioned %r, not %r' % (what, WORD[x.kind], got, x.caption))
                return
            if x.note is not None and self.trees[0].get_tag(x.real, 'note') != x.note:
                self.bad('tag', '%s: another tag of %s changed' % (what, WORD[x.kind]))
                return
            self.ctx.probe('captions compared')

    def match(self, ti, w, x, text, what):
        """The widget item w shows the model item x."""
        if w is None:
            self.bad('entry', '%s: no entry for %s %r' % (what, WORD[x.kind], text))
            return
        if w.text(0) != text:
            self.bad('entry', '%s: the entry of %s reads %r, not %r' % (what, WORD[x.kind], w.text(0), text))
            return
        if not w.flags() & Qt.ItemIsEditable or not w.flags() & Qt.ItemIsEnabled:
            self.bad('editable', '%s: the entry %r can not be renamed' % (what, text))
        self.entries[ti].append((w, x))
        if x.kind == 'obj':
            groups = [(w, x.of('surf'))]
        elif x.kind == 'surf':
            groups = [(w, [])]
        else:
            groups = []
            cats = [w.child(i) for i in range(w.childCount())]
            expect = [(n, x.of(k)) for n, k in (('Subassemblies', 'asm'), ('Optical objects', 'obj')) if x.of(k)]
            if len(cats) != len(expect):
                self.bad('entry', '%s: %d groups under %r, not %d' % (what, len(cats), text, len(expect)))
                return
            for n, members in expect:
                c = [q for q in cats if q.text(0) == n]
                if len(c) != 1:
                    self.bad('entry', '%s: %d groups named %s under %r' % (what, len(c), n, text))
                    return
                self.categories[ti].append(c[0])
                groups.append((c[0], members))
        for holder, members in groups:
            if holder.childCount() != len(members):
                self.bad('entry', '%s: %d entries under %r, not %d' % (what, holder.childCount(), holder.text(0), len(members)))
                return
            for i, m in enumerate(members):
                if self.ctx.violations:
                    return
                self.match(ti, holder.child(i), m, m.caption, what)

    def judge(self, ti, what):
        """Just after a complete showing."""
        t, x = self.trees[ti], self.shown[ti]
        self.entries[ti], self.categories[ti] = [], []
        if t.get_assembly() is not x.real:
            self.bad('assembly', what + ': get_assembly gives another one')
            return
        if t.topLevelItemCount() != 1:
            self.bad('entry', '%s: %d entries at the top' % (what, t.topLevelItemCount()))
            return
        self.match(ti, t.topLevelItem(0), x, 'Top assembly' if x.caption is None else x.caption, what)
        self.ctx.probe('trees compared')
        self.ctx.probe('entries compared', len(self.entries[ti]))


def run_c18(ctx, case):
    if not case['asms'] or not 0 < case['trees'] < 9:
        raise S.Invalid('nothing')
    u = Desk(ctx, case)
    for i, op in enumerate(case['ops']):
        if ctx.violations:
            return
        k = op['op']
        what = 'op %d (%s)' % (i, k)
        ti = op.get('t', 0) % len(u.trees)
        t = u.trees[ti]
        if k == 'show':
            x = u.asms[op['a'] % len(u.asms)]
            if op.get('sub') is not None:
                x = pick([y for y in x.walk() if y.kind == 'asm'], op['sub'])
            f = op.get('fault')
            outcome = 'done'
            d = defaults(x)
            if f:
                n = twin_lines(ctx, u, x)
                at = seams.pick_instant(n, f[1], f[2])
                outcome, _ = seams.run_with_fault(ctx.lines, at, seams.FAULTS[f[0]], t.set_assembly, x.real)
            else:
                t.set_assembly(x.real)
            if outcome == 'fault':
                ctx.fault(f[0])
                u.shown[ti] = None
                u.entries[ti], u.categories[ti] = [], []
                # what was numbered before the interrupt stays so
                for y in x.walk():
                    got = t.get_tag(y.real, 'caption')
                    if y.caption is None and id(y) in d and got == d[id(y)]:
                        y.caption = got
            else:
                for y in x.walk():
                    if id(y) in d:
                        y.caption = d[id(y)]
                u.shown[ti] = x
                u.judge(ti, what)
        elif k in ('rename', 'category', 'flag'):
            if u.shown[ti] is None:
                continue
            if k == 'category':
                w = pick(u.categories[ti], op['k'])
                if w is None:
                    continue
                w.setText(0, op['name'])
            else:
                w, x = pick(u.entries[ti], op['k'])
                if k == 'flag':
                    # a change that is no renaming; the entry reads what it reads
                    old = w.text(0)
                    w.setFlags(w.flags() ^ Qt.ItemIsUserCheckable)
                    if t.get_tag(x.real, 'caption') == old:
                        x.caption = old
                else:
                    if not w.flags() & Qt.ItemIsEditable:
                        u.bad('editable', what + ': the entry can not be renamed')
                        return
                    w.setText(0, op['name'])
                    x.caption = op['name']
                    if op['dup']:
                        w._changed(0)
                        ctx.fault('repeated notification')
        elif k == 'tag':
            x = pick(u.everything(), op['k'])
            t.set_tag(x.real, op['tag'], op['name'])
            if op['tag'] == 'caption':
                x.caption = op['name']
            else:
                x.note = op['name']
        elif k == 'grow':
            x = pick(u.everything(), op['k'])
            if x.kind == 'surf':
                continue
            x.add(Item(ctx.env, op['surf'] if x.kind == 'obj' else op['new']))
        elif k in ('drop', 'shift'):
            pairs = [(p, q) for p in u.everything() for q in p.kids]
            if not pairs:
                continue
            p, q = pick(pairs, op['k'])
            if any(s is not None and s in list(q.walk()) for s in u.shown):
                continue
            p.remove(q)
            if k == 'shift':
                # to the end of the same list
                p.add(q)
        u.captions(what)
        ctx.event(what, sorted(repr(y.caption) for y in u.everything()))
        ctx.state(k, op.get('fault') and op['fault'][0], [len(e) for e in u.entries])
        ctx.probe('tree actions')


def twin_lines(ctx, u, x):
    """Line events of showing x, from a tree of the same shape that nobody keeps."""
    def spec(y):
        tags = getattr(y.real, '_tree_tags', None)
        return {'t': y.kind, 'tags': None if tags is None else dict(tags), 'kids': [spec(q) for q in y.kids]}
    twin = Item(u.env, spec(x))
    tree = module().AssemblyTree()
    _, log = seams.record_lines(ctx.lines, tree.set_assembly, twin.real)
    return log
