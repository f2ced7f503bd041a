"""Totality: every element of a collection that a function goes over is accounted for on every path.

A path is a sequence of events for one generic element; a path that enters every loop over the collection stands for
what happens to each element of it."""
from .common import *

KINDS = {'ITER', 'ITEREND', 'ITERNONE', 'BREAK', 'YIELD', 'MUT', 'COND', 'EMIT', 'GENVAL', 'GENEND', 'LOOPRETURN', 'RAISE',
         'XCALL', 'HANDLER', 'KEY'}
PARTIAL = {'islice', 'takewhile', 'dropwhile', 'filter', 'filterfalse', 'next', 'compress', 'sample', 'choice'}


def expand(it, st, v, seen=None):
    """All subvalues of v, looking into the objects created on the path."""
    seen = set() if seen is None else seen
    for w in walk(v):
        if w in seen:
            continue
        seen.add(w)
        yield w
        if w[0] == 'n':
            for k, val in list(st.heap.items()):
                if k[0] == w and isinstance(val, tuple):
                    if len(k) == 3 and isinstance(k[2], tuple):
                        yield from expand(it, st, k[2], seen)
                    yield from expand(it, st, val, seen)
        elif w[0] == 'L':
            pass


def occurs(it, st, v, want, seen=None):
    """want is in v itself, not only a part of it."""
    seen = set() if seen is None else seen
    todo = [v]
    while todo:
        w = todo.pop()
        if not isinstance(w, tuple) or w in seen:
            continue
        if w == want:
            return True
        seen.add(w)
        if w and w[0] == 'phi':
            todo.extend(w[1])
        elif w and isinstance(w[0], str) and w[0] in TAGS:
            if w[0] in ('i', 'e', 'k', 'a') and w[1] == want:
                todo.extend(y for y in w[2:] if isinstance(y, tuple))
            elif w[0] in ('c', 'p', 'g', 'G', 'F', 'C', 'M', 'L', 'lv', 'u'):
                continue
            elif w[0] == 'n':
                for k, val in list(st.heap.items()):
                    if k[0] == w and isinstance(val, tuple):
                        if len(k) == 3:
                            todo.append(k[2])
                        todo.append(val)
            else:
                todo.extend(y for y in w[1:] if isinstance(y, tuple))
        else:
            todo.extend(y for y in w if isinstance(y, tuple))
    return False


def carries(it, st, v, *wanted):
    """v contains each of the wanted values (a predicate or a value)."""
    subs = None
    for w in wanted:
        if callable(w):
            if subs is None:
                subs = list(expand(it, st, v))
            if not any(w(s) for s in subs):
                return False
        elif not occurs(it, st, v, w):
            return False
    return True


def whole(it, st, v, pair):
    """v contains the pair, or both of its components."""
    return carries(it, st, v, pair) or carries(it, st, v, ('i', pair, C(0)), ('i', pair, C(1)))


def partial_iter(v, st=None):
    """The iterated value is only a part of a collection."""
    for w in walk(v):
        if w[0] == 'o' and w[1] == 'slice':
            return True
        if w[0] == 'n' and st is not None and (w, '#part') in st.heap:
            return True
        if w[0] == 'x' and w[1].split('.')[-1] in PARTIAL:
            return True
    return False


class Path:
    def __init__(self, it, st, kind, v):
        self.it, self.st, self.kind, self.v = it, st, kind, v
        self.events = [e for e in st.events if e.kind in KINDS]

    def conds(self):
        return list(self.st.conds.items()) + [(e.args[0], e.args[1]) for e in self.events if e.kind == 'COND']

    def iters(self, pred, kinds=('ITER',)):
        """Iterations with an element (or collection, for ITERNONE) that satisfies pred."""
        out = []
        for e in self.events:
            if e.kind in kinds:
                if e.kind == 'ITERNONE':
                    if pred(e.args[0]):
                        out.append(e)
                elif pred(e.args[1]):
                    out.append(e)
        return out

    def yields(self, pred=None):
        return [e for e in self.events if e.kind == 'YIELD' and not e.where[1].endswith('<genexp>') and (pred is None or pred(e.args[0]))]

    def complete(self):
        return self.kind == 'return' and not any(e.kind == 'GENVAL' for e in self.events)

    def cut_short(self, pred):
        """A break or return inside a loop over elements that satisfy pred."""
        open_ = []
        for e in self.events:
            if e.kind == 'ITER' and e.args[2] != 'comp':
                open_.append(e)
            elif e.kind == 'ITEREND':
                for o in reversed(open_):
                    if o.args[:2] == e.args[:2]:
                        open_.remove(o)
                        break
            elif e.kind == 'BREAK' and pred(e.args[1]):
                return e
            elif e.kind == 'LOOPRETURN':
                for o in open_:
                    if pred(o.args[1]) and o.where[1] == e.where[1]:
                        return e
        return None


def paths(prog, f, cap, at=None, **kw):
    def o(ev, st, it):
        return ev.kind in KINDS

    it = Interp(prog, atoms=at if at is not None else boundaries(prog), cap=cap, observers=[o], comp_paths=True,
                merge_calls=False, **kw)
    return it, [Path(it, st, k, v) for st, k, v in it.run(f)]
