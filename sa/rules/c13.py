"""C13 The term tree stays consistent under edits."""
import ast

from ..common import *
from ..total import partial_iter

PASSES = 2      # of loop bodies

ADD = {'append', 'insert', 'add', 'extend', 'appendleft', '__iadd__'}
REM = {'remove', 'pop', '__delitem__', 'discard', 'clear', '__delslice__'}
LISTS = ('terms', 'children', 'sections')
ADD_TERM = {'MetatabDoc.add_term', 'SectionTerm.add_term', 'SectionTerm.move_term'}
REMOVE = {'MetatabDoc.remove_term', 'SectionTerm.remove_term', 'Term.remove_child'}
# generators over a list of the document that is not copied
LIVE = {'SectionTerm.__iter__': 'terms', 'Term.find': 'children', 'Term.descendents': 'children',
        'MetatabDoc.__iter__': 'sections', 'MetatabDoc.all_terms': 'terms'}
INLINE = ('Term.section', 'Term.section.setter', 'Term.new_children', 'SectionTerm.move_term')


def lists(v):
    """(owner, field) of the list attributes v may be."""
    for m in members(v):
        if m[0] == 'a' and m[2] in LISTS:
            yield m[1], m[2]


def has(v, w):
    return any(m == w for m in members(v))


def elems(it, st, ev):
    op_, vals = ev.args[1], ev.args[3]
    if op_ == 'insert':
        return vals[1:2]
    if op_ == 'extend':
        out = []
        for v in vals:
            seq = it.exact(st, v)
            out += list(seq) if seq is not None else [it.content(st, v)]
        return out
    return vals[:1]


class Path:
    """The listing-related events of one path."""

    def __init__(self, st, kind):
        self.st, self.kind = st, kind
        self.conds = dict(st.conds)
        for e in st.events:
            if e.kind == 'COND':
                self.conds.setdefault(e.args[0], e.args[1])

    def events(self, *kinds):
        return [e for e in self.st.events if e.kind in kinds]

    def calls(self, names):
        return [e for e in self.st.events if e.kind == 'CALL' and e.args[0] in names]

    def cond(self, pred, val):
        return any(b is val and pred(k) for k, b in self.conds.items())

    def removed(self, field, t, cls=None, it=None):
        for e in self.st.events:
            if e.kind == 'MUT' and e.args[1] in REM:
                for x_, f_ in lists(e.args[0]):
                    if f_ == field and (cls is None or it.typeof(self.st, x_) in (cls, None) or (
                            cls == 'SectionTerm' and it.typeof(self.st, x_) == 'RootSectionTerm')):
                        return True
            elif e.kind == 'STORE' and e.args[1] == field:
                return True
        return False

    def handled_removal(self):
        """A handler was entered whose try body removes something."""
        for e in self.events('HANDLER'):
            t = e.args[3]
            for s in getattr(t, 'body', ()):
                for n in ast.walk(s):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (
                            n.func.attr in REM or n.func.attr.startswith(('remove', '_remove', 'discard', 'drop', '_drop'))):
                        return True
                    if isinstance(n, ast.Delete):
                        return True
        return False


def track(ev, st, it):
    if it.assert_depth:
        return False
    k = ev.kind
    if k == 'CALL':
        return ev.args[0] in ADD_TERM or ev.args[0] in REMOVE or ev.args[0] in (
            'Term.set_ownership', 'MetatabDoc.add_section', 'Term.add_child')
    if k == 'STORE':
        return ev.args[1] in ('section', '_section', 'parent', 'doc', '_doc', 'terms', 'children')
    if k == 'MUT':
        return any(True for _ in lists(ev.args[0]))
    if k == 'COND':
        return any(w[0] in ('a', 'x', 'p') for w in walk(ev.args[0])) and mentions(ev.args[0])
    return k in ('HANDLER', 'RECURSION')


def mentions(v):
    for w in walk(v):
        if w[0] == 'a' and w[2] in ('terms', 'children', 'parent', '_section', 'section'):
            return True
        if w[0] == 'p' and w[1] in ('add_section', 'remove_from_doc'):
            return True
        if w[0] == 'x' and w[1] in ('Term.parent_term_lc', 'Term.term_is'):
            return True
    return False


def falsy(p, v):
    """The path has established that v is empty or None."""
    return p.cond(lambda k: k == v or k == ('o', 'bool', v), False) or p.cond(
        lambda k: k[0] == 'o' and k[1] in ('isnone', 'not') and k[2] == v, True)


def root_level(p, t, val):
    """The path has compared the parent part of t's name with root, with result val."""
    def is_cmp(k):
        if k[0] != 'o' or k[1] not in ('==', 'in') or len(k) < 4:
            return False
        ws = list(walk(k))
        return any(w[0] == 'x' and w[1] == 'Term.parent_term_lc' and t in w[2] or
                   w[0] == 'a' and w[2] == 'parent_term' and w[1] == t for w in ws)
    return p.cond(is_cmp, val) or p.cond(
        lambda k: k[0] == 'o' and k[1] == '!=' and any(w[0] == 'x' and w[1] == 'Term.parent_term_lc' and t in w[2]
                                                        for w in walk(k)), not val)


def run(prog, ck, thorough):
    ck.rule('child-parent', 'whatever lists a term among the children of X also makes X its parent, and takes it from the '
                            'children of another parent', 1)
    ck.rule('listed-once', 'a term is appended to the terms of a document or section only if it is new or not listed there', 2)
    ck.rule('both-sides-add', 'adding a top-level term lists it in the document and in the section it then reports, and '
                              'takes it from the section it was in', 2)
    ck.rule('both-sides-remove', 'removing a term removes it from the document, its section and its parent', 3)
    ck.rule('bulk-remove', 'emptying or deleting a section removes each of its terms', 3)
    ck.rule('created-in-place', 'a term created under a term or section has that parent, section and document', 3)
    ck.rule('ownership', 'set_ownership gives every descendent the section and document', 1)
    ck.rule('live-iteration', 'no list of terms is changed while it is being iterated', 100)
    ck.rule('identity', 'terms are compared by identity and are always true', 1)
    ck.rule('section-kept', 'adding or getting a section never replaces one of that name', 2)
    ck.notes += ['attributes assigned by the caller (t.section = s) are not editing operations',
                 'the removal from a list that does not contain the term is the handled ValueError']

    at = boundaries(prog, inline=INLINE)

    # ---------------------------------------------------------------- listing
    def job(f, cap):
        findings, obs = [], []

        def o(ev, st, it):
            if ev.kind == 'MUT' and ev.args[1] in ADD and not it.assert_depth:
                for x_, f_ in lists(ev.args[0]):
                    if f_ == 'terms' and x_[0] != 'n':
                        for t in elems(it, st, ev):
                            obs.append(('listed-once', '%s: %s' % (f.qual, show(ev.args[0]))))
                            if all(m[0] == 'n' for m in members(t)):
                                continue
                            lst = ev.args[0]
                            ok = any(k[0] == 'o' and k[1] == 'in' and has(k[2], t) and k[3] == lst and b is False
                                     for k, b in st.conds.items())
                            ok = ok or any(k[0] == 'o' and k[1] in ('any', 'not') and b is False and lst in set(walk(k)) for
                                           k, b in st.conds.items()) or any(
                                k[0] == 'x' and k[1] in ('any', '.count') and b is False for k, b in st.conds.items())
                            if not ok and not counted(st, lst):
                                findings.append(Finding('listed-once', ev.where, show(lst), '%s appends %s to %s without '
                                                        'knowing that it is not there' % (f.qual, show(t), show(lst)),
                                                        it.chain()))
            return track(ev, st, it)

        def one_sided(p, f, it, findings, obs):
            for e in p.events('MUT'):
                if e.args[1] not in ('remove', 'discard') or not e.args[3]:
                    continue
                t = e.args[3][0]
                for x_, f_ in lists(e.args[0]):
                    if f_ == 'sections' or any(m[0] == 'n' for m in members(x_)):
                        continue
                    obs.append(('both-sides-remove', '%s: removes from %s' % (f.qual, show(e.args[0])[:60])))
                    ok = any(any(has(v2, m) for _, v2 in r.args[1] for m in members(t)) for r in p.calls(REMOVE | ADD_TERM))
                    for r in p.events('MUT'):
                        if r is not e and r.args[1] in ADD | {'remove', 'discard'} and any(fl != 'sections' for ow, fl in
                                                                                     lists(r.args[0])) and r.args[0] != e.args[0]:
                            ok = ok or t in r.args[3]
                    ok = ok or any(r.args[1] in ('terms', 'children') and r.args[0] != x_ for r in p.events('STORE'))
                    if not ok and f_ == 'terms':
                        findings.append(Finding('both-sides-remove', e.where, show(e.args[0]), '%s removes %s from %s only' % (
                            f.qual, show(t), show(e.args[0])), it.chain()))

        def counted(st, lst):
            return any(b is not None and any(w == lst for w in walk(k)) and k[0] in ('x', 'o') and k[1] in (
                'any', '==', 'all') for k, b in st.conds.items())

        it = Interp(prog, atoms=at, cap=cap, observers=[o])
        outs = it.run(f)
        for st, kind, v in outs:
            if kind == 'raise':
                continue
            p = Path(st, kind)
            where = (f.module.path, f.qual, f.node.lineno)
            if f.qual not in REMOVE:
                one_sided(p, f, it, findings, obs)
            for e in p.events('MUT', 'STORE'):
                adds = []
                if e.kind == 'MUT' and e.args[1] in ADD:
                    for x_, f_ in lists(e.args[0]):
                        for t in elems(it, st, e):
                            adds.append((x_, f_, t))
                elif e.kind == 'STORE' and e.args[1] in ('terms', 'children'):
                    v_ = e.args[2]
                    if v_[0] == 'o' and v_[1] == '+':
                        for w in v_[2:]:
                            if w[0] == 'n':
                                c = it.exact(st, w)
                                for t in (c or ()):
                                    adds.append((e.args[0], e.args[1], t))
                for x_, f_, t in adds:
                    if f_ == 'children':
                        obs.append(('child-parent', '%s: %s' % (f.qual, show(t)[:60])))
                        for c in members(t):
                            par = st.heap.get((c, 'parent'))
                            if par is None or not any(m == x_ or m[0] in ('u', 'lv') for m in members(par)):
                                if c[0] in ('u', 'lv'):
                                    continue
                                findings.append(Finding('child-parent', e.where, 'parent', '%s lists %s among the children of '
                                                        '%s but its parent is %s' % (f.qual, show(c), show(x_), show(par)
                                                                                     if par else 'not set'), it.chain()))
                            elif c[0] != 'n':
                                old = ('a', c, 'parent')
                                ok = falsy(p, old) or p.cond(lambda k: k[0] == 'o' and k[1] == 'is' and has(k[2], old) and
                                                             has(k[3], x_), True) or p.cond(
                                    lambda k: k[0] == 'o' and k[1] == 'is' and has(k[3], old) and has(k[2], x_), True)
                                ok = ok or p.cond(lambda k: k[0] == 'o' and k[1] == 'in' and k[2] == c and
                                                  any(w == old for w in walk(k[3])), False)
                                ok = ok or any(r.kind == 'MUT' and r.args[1] in REM and any(
                                    fl == 'children' and old in set(walk(ow)) for ow, fl in lists(r.args[0]))
                                    for r in p.events('MUT')) or any(
                                    r.args[0] == 'Term.remove_child' and has(dict(r.args[1])['self'], old)
                                    for r in p.calls(('Term.remove_child',))) or p.handled_removal()
                                ok = ok or any(r.kind == 'STORE' and r.args[1] == 'children' and has(r.args[0], old)
                                               for r in p.events('STORE'))
                                if not ok:
                                    findings.append(Finding('child-parent', e.where, 'old parent', '%s lists %s among the '
                                                            'children of %s without taking it from the children of the parent '
                                                            'it had' % (f.qual, show(c), show(x_)), it.chain()))
                    elif f_ == 'terms' and x_[0] != 'n':
                        cl = it.typeof(st, x_)
                        for c in members(t):
                            if cl == 'MetatabDoc':
                                obs.append(('both-sides-add', '%s: document lists %s' % (f.qual, show(c)[:60])))
                                sec = ('a', c, '_section')
                                ok = any(has(dict(r.args[1])['t'], c) for r in p.calls(('SectionTerm.add_term',
                                                                                        'SectionTerm.move_term')))
                                ok = ok or falsy(p, ('p', 'add_section')) or falsy(p, sec) or root_level(p, c, False)
                                ok = ok or any(r.kind == 'MUT' and r.args[1] in ADD and any(
                                    fl == 'terms' and it.typeof(st, ow) in ('SectionTerm', 'RootSectionTerm')
                                    for ow, fl in lists(r.args[0])) for r in p.events('MUT'))
                                if not ok:
                                    findings.append(Finding('both-sides-add', e.where, 'document only', '%s lists %s in the '
                                                            'document but not in its section' % (f.qual, show(c)), it.chain()))
                            elif cl in ('SectionTerm', 'RootSectionTerm'):
                                obs.append(('both-sides-add', '%s: section lists %s' % (f.qual, show(c)[:60])))
                                sec = st.heap.get((c, '_section'), st.heap.get((c, 'section')))
                                if sec is None or not has(sec, x_):
                                    findings.append(Finding('both-sides-add', e.where, 'section', '%s lists %s in %s but its '
                                                            'section is %s' % (f.qual, show(c), show(x_), show(sec) if sec else
                                                                               'not set'), it.chain()))
                                ok = any(has(dict(r.args[1])['t'], c) for r in p.calls(('MetatabDoc.add_term',)))
                                ok = ok or any(r.kind == 'MUT' and r.args[1] in ADD and any(
                                    fl == 'terms' and it.typeof(st, ow) == 'MetatabDoc' for ow, fl in lists(r.args[0]))
                                    for r in p.events('MUT'))
                                if not ok:
                                    findings.append(Finding('both-sides-add', e.where, 'section only', '%s lists %s in a '
                                                            'section but not in the document' % (f.qual, show(c)), it.chain()))
                                if c[0] != 'n':
                                    old = ('a', c, '_section')
                                    ok = falsy(p, old) or p.cond(lambda k: k[0] == 'o' and k[1] == 'is' and
                                                                 {k[2], k[3]} == {old, x_}, True)
                                    ok = ok or any(r.args[0] in ('SectionTerm.remove_term', 'MetatabDoc.remove_term') and
                                                   any(has(v2, c) for _, v2 in r.args[1])
                                                   for r in p.calls(('SectionTerm.remove_term', 'MetatabDoc.remove_term')))
                                    ok = ok or any(r.kind == 'MUT' and r.args[1] in REM and any(
                                        fl == 'terms' and old in set(walk(ow)) for ow, fl in lists(r.args[0]))
                                        for r in p.events('MUT')) or p.handled_removal()
                                    ok = ok or p.cond(lambda k: k[0] == 'o' and k[1] == 'in' and k[2] == c and any(
                                        w == old for w in walk(k[3])), False)
                                    if not ok:
                                        findings.append(Finding('both-sides-add', e.where, 'old section', '%s lists %s in a '
                                                                'section without taking it from the section it was in' % (
                                                                    f.qual, show(c)), it.chain()))
                                    if not p.calls(('Term.set_ownership',)):
                                        findings.append(Finding('ownership', e.where, 'children', '%s moves %s to a section '
                                                                'without giving its children the same section' % (
                                                                    f.qual, show(c)), it.chain()))
        return pack(it, findings, obs)

    sweep(ck, entries(prog, private=True), job, label=lambda f: f.qual, caps=(192, 48, 8))

    # ---------------------------------------------------------------- reordering
    def reorder(f, cap):
        findings, obs = [], []

        def o(ev, st, it):
            if it.assert_depth:
                return False
            return ev.kind in ('ITER', 'ITEREND', 'MUT', 'COND') or ev.kind == 'STORE' and ev.args[1] in ('terms', 'children')

        it = Interp(prog, atoms=at, cap=cap, observers=[o])
        stores, whole = {}, set()
        for st, kind, v in it.run(f):
            def derived(v, own, seen=()):
                if any(w == own or w[0] == 'x' and w[1] in LIVE and ('a', w[2][0], LIVE[w[1]]) == own for w in walk(v)):
                    return True
                return any(w[0] == 'n' and w not in seen and w != v and derived(w, own, seen + (w,)) or
                           w[0] == 'n' and w not in seen and derived(it.content(st, w), own, seen + (w,))
                           for w in walk(v))
            for i, e in enumerate(st.events):
                if e.kind != 'STORE' or e.args[0][0] == 'n':
                    continue
                own = ('a', e.args[0], e.args[1])
                key = (e.where, own)
                stores[key] = e
                v_ = e.args[2]
                if v_[0] != 'n' and derived(v_, own):
                    whole.add(key)
                for j, m in enumerate(st.events[:i]):
                    if m.kind != 'MUT' or not set(members(m.args[0])) & set(members(v_)):
                        continue
                    if m.args[1] in ('extend', '__iadd__') and any(derived(x_, own) for x_ in m.args[3]):
                        whole.add(key)
                    elif m.args[1] in ('append', 'insert') and any(derived(x_, own) for x_ in m.args[3]):
                        last = max([k for k in range(j) if st.events[k].kind == 'ITER'], default=-1)
                        if not any(c.kind == 'COND' for c in st.events[last + 1:j]):
                            whole.add(key)
                if v_[0] == 'n':
                    # a display, comprehension or sorted() of the whole list
                    its = [c for c in st.events[:i] if c.kind == 'ITER' and derived(c.args[0], own) and
                           c.args[2:] == ('comp',)]
                    if its and not any(c.kind == 'COND' for c in st.events[:i]):
                        whole.add(key)
                    if not its and not any(m.kind == 'MUT' and set(members(m.args[0])) & set(members(v_)) for m in st.events) \
                            and derived(it.content(st, v_), own):
                        whole.add(key)
        for key, e in sorted(stores.items(), key=str):
            obs.append(('listed-once', '%s: reorders %s' % (f.qual, show(key[1])[:60])))
            if key not in whole:
                findings.append(Finding('listed-once', e.where, 'reorder', '%s replaces %s by a list that need not have all of '
                                        'its terms' % (f.qual, show(key[1])), it.chain()))
        return pack(it, findings, obs)

    sweep(ck, [prog.func('metatab.terms', 'SectionTerm.sort_by_term')], reorder, label=lambda f: f.qual)

    # ---------------------------------------------------------------- operations that must list
    def must_list(f, cap):
        findings, obs = [], []
        it = Interp(prog, atoms=at, cap=cap, observers=[track])
        want = {'MetatabDoc.add_term': 'MetatabDoc', 'SectionTerm.add_term': 'SectionTerm', 'Term.add_child': 'Term'}[f.qual]
        field = 'children' if want == 'Term' else 'terms'
        t = ('p', f.params[1])
        for st, kind, v in it.run(f):
            if kind == 'raise':
                continue
            p = Path(st, kind)
            lst = ('a', ('p', f.params[0]), field)
            ok = p.cond(lambda k: k == ('o', 'in', t, lst), True) or any(
                k[0] in ('x', 'o') and k[1] in ('any',) and b is True for k, b in p.conds.items())
            ok = ok or any(e.kind == 'MUT' and e.args[1] in ADD and lst in members(e.args[0]) for e in p.events('MUT'))
            ok = ok or any(e.kind == 'STORE' and e.args[1] == field for e in p.events('STORE'))
            ok = ok or any(e.args[0] == 'MetatabDoc.add_section' and has(dict(e.args[1]).get('s', TOP), t)
                           for e in p.calls(('MetatabDoc.add_section',)))
            obs.append(('both-sides-add', '%s returns with the term listed: %s' % (f.qual, len(obs))))
            if not ok:
                findings.append(Finding('both-sides-add', (f.module.path, f.qual, f.node.lineno), 'not listed',
                                        '%s can return without listing the term: %s' % (f.qual, conds_text(p))))
        return pack(it, findings, obs)

    sweep(ck, [prog.func('metatab.doc', 'MetatabDoc.add_term'), prog.func('metatab.terms', 'SectionTerm.add_term'),
               prog.func('metatab.terms', 'Term.add_child')], must_list, label=lambda f: f.qual)

    # ---------------------------------------------------------------- removal
    def remove(f, cap):
        findings, obs = [], []
        it = Interp(prog, atoms=at, cap=cap, observers=[track])
        me, t = ('p', f.params[0]), ('p', f.params[1])
        for st, kind, v in it.run(f):
            if kind == 'raise':
                continue
            p = Path(st, kind)
            h = p.handled_removal()
            obs.append(('both-sides-remove', '%s: %s' % (f.qual, conds_text(p)[:200])))
            miss = []

            def calls(q):
                return any(any(has(v2, t) for _, v2 in r.args[1]) for r in p.calls((q,)))
            if f.qual == 'MetatabDoc.remove_term':
                if not (p.removed('terms', t, 'MetatabDoc', it) or h or p.cond(
                        lambda k: k == ('o', 'in', t, ('a', me, 'terms')), False)):
                    miss.append('the terms of the document')
                sec = ('a', t, '_section')
                if not (calls('SectionTerm.remove_term') or p.removed('terms', t, 'SectionTerm', it) and not p.cond(
                        lambda k: k == sec, None) and sec_removed(p, it, sec) or falsy(p, sec) or root_level(p, t, False)):
                    miss.append('its section')
                par = ('a', t, 'parent')
                if not (calls('Term.remove_child') or p.removed('children', t) or falsy(p, par) or h or p.cond(
                        lambda k: k[0] == 'o' and k[1] == 'in' and k[2] == t and any(w == par for w in walk(k[3])), False)):
                    miss.append('the children of its parent')
            elif f.qual == 'SectionTerm.remove_term':
                if not (p.removed('terms', t) or h or p.cond(lambda k: k == ('o', 'in', t, ('a', me, 'terms')), False)):
                    miss.append('the terms of the section')
                if not (calls('MetatabDoc.remove_term') or falsy(p, ('p', 'remove_from_doc'))):
                    miss.append('the document')
            else:
                if not (p.removed('children', t) or h):
                    miss.append('the children')
                if not (calls('MetatabDoc.remove_term') or root_level(p, t, False)):
                    miss.append('the document')
            for m in miss:
                findings.append(Finding('both-sides-remove', (f.module.path, f.qual, f.node.lineno), m,
                                        '%s can return without removing the term from %s: %s' % (f.qual, m, conds_text(p))))
        return pack(it, findings, obs)

    def sec_removed(p, it, sec):
        return any(e.kind == 'MUT' and e.args[1] in REM and any(sec in set(walk(ow)) or 'add_section' in show(ow)
                                                                for ow, fl in lists(e.args[0])) for e in p.events('MUT'))

    sweep(ck, [prog.func('metatab.doc', 'MetatabDoc.remove_term'), prog.func('metatab.terms', 'SectionTerm.remove_term'),
               prog.func('metatab.terms', 'Term.remove_child')], remove, label=lambda f: f.qual)

    # ---------------------------------------------------------------- bulk removal
    def bulk(f, cap):
        findings, obs = [], []

        def o(ev, st, it):
            if it.assert_depth:
                return False
            if ev.kind in ('ITER', 'ITEREND', 'BREAK'):
                return True
            if ev.kind == 'MUT' and any(fl == 'sections' for ow, fl in lists(ev.args[0])):
                return True
            if ev.kind == 'COND':
                return True
            return track(ev, st, it)

        it = Interp(prog, atoms=at, cap=cap, observers=[o])
        n = 0
        for st, kind, v in it.run(f):
            if kind == 'raise':
                continue
            evs = st.events
            p = Path(st, kind)
            for i, e in enumerate(evs):
                if e.kind != 'ITER':
                    continue
                el = e.args[1]
                if not any(w[0] in ('x', 'a') and (w[0] == 'x' and w[1] == 'SectionTerm.__iter__' or
                                                    w[0] == 'a' and w[2] in ('terms', 'children')) for w in walk(el)):
                    continue
                inner, closed = [], False
                for e2 in evs[i + 1:]:
                    if e2.kind in ('ITEREND', 'BREAK') and e2.args[1] == el:
                        closed = e2.kind == 'ITEREND'
                        break
                    inner.append(e2)
                comp = len(e.args) > 2 and e.args[2] == 'comp'
                rem = any(e2.kind == 'CALL' and e2.args[0] in REMOVE and any(has(v2, el) for _, v2 in e2.args[1])
                          for e2 in (evs[i + 1:] if comp else inner))
                if comp and not rem and not any(e2.kind == 'ITER' and e2.args[1] == el for e2 in evs[i + 1:]):
                    continue    # the selection of the terms; the loop over it is empty on this path
                n += 1
                skip = f.qual == 'SectionTerm.__delitem__' and any(
                    e2.kind == 'COND' and e2.args[1] is False and any(w[0] == 'x' and w[1] == 'Term.term_is' for w in
                                                                     walk(e2.args[0])) for e2 in inner)
                skip = skip or f.qual == 'SectionTerm.__delitem__' and any(
                    e2.kind == 'COND' and e2.args[1] is True and e2.args[0][0] == 'o' and e2.args[0][1] == 'not'
                    for e2 in inner)
                if rem and partial_iter(e.args[0], st):
                    findings.append(Finding('bulk-remove', e.where, 'part', '%s removes only a part of the terms' % f.qual))
                if not rem and not skip:
                    findings.append(Finding('bulk-remove', e.where, 'kept', '%s can pass over a term without removing it: %s'
                                            % (f.qual, conds_text(p))))
                if not closed and f.qual != 'SectionTerm.__delitem__' and not any(e2.kind == 'HANDLER' for e2 in inner):
                    findings.append(Finding('bulk-remove', e.where, 'stops', '%s stops before the last term' % f.qual))
            if f.qual == 'MetatabDoc.__delitem__':
                dels = any(e.kind == 'MUT' and e.args[1] in REM and any(fl == 'sections' for ow, fl in lists(e.args[0]))
                           for e in evs)
                absent = any(e.kind == 'HANDLER' for e in evs) or any(
                    k[0] == 'o' and k[1] == 'in' and b is False for k, b in p.conds.items()) or any(
                    k[0] == 'o' and k[1] == 'isnone' and b is True for k, b in p.conds.items()) or any(
                    b is False and k[0] in ('x', 'i', 'a') for k, b in p.conds.items())
                if not dels and not absent:
                    findings.append(Finding('bulk-remove', (f.module.path, f.qual, f.node.lineno), 'section',
                                            '%s can return without deleting the section' % f.qual))
        obs.append(('bulk-remove', '%s: %d iterations over terms' % (f.qual, n)))
        if n == 0 and not any(st.events and any(e.kind == 'CALL' and e.args[0] == 'SectionTerm.clean' for e in st.events)
                              for st, k_, v_ in it.run(f)):
            findings.append(Finding('bulk-remove', (f.module.path, f.qual, f.node.lineno), 'none',
                                    '%s does not go over the terms of the section' % f.qual))
        return pack(it, findings, obs)

    sweep(ck, [prog.func('metatab.doc', 'MetatabDoc.__delitem__'), prog.func('metatab.terms', 'SectionTerm.__delitem__'),
               prog.func('metatab.terms', 'SectionTerm.clean')], bulk, label=lambda f: f.qual)

    # ---------------------------------------------------------------- creation
    def create(f, cap):
        findings, obs = [], []

        def o(ev, st, it):
            return ev.kind == 'NEW' and ev.args[1] in ('Term', 'SectionTerm') and not it.assert_depth or track(ev, st, it)

        it = Interp(prog, atoms=at, cap=cap, observers=[o])
        me = ('p', f.params[0])
        n = 0
        for st, kind, v in it.run(f):
            if kind == 'raise':
                continue
            p = Path(st, kind)
            for e in p.events('NEW'):
                c = e.args[0]
                n += 1
                obs.append(('created-in-place', '%s: path %d' % (f.qual, n)))
                par = st.heap.get((c, 'parent'), NONE)
                sec = st.heap.get((c, '_section'), NONE)
                doc = st.heap.get((c, 'doc'), st.heap.get((c, '_doc'), NONE))
                bad = []
                if f.qual == 'SectionTerm.new_term':
                    if not has(sec, me):
                        bad.append('section')
                    if not any(has(v2, c) and dict(r.args[1]).get('add_section') != FALSE
                               for r in p.calls(('MetatabDoc.add_term', 'SectionTerm.add_term')) for _, v2 in r.args[1]):
                        bad.append('place in the document')
                else:
                    if not has(par, me):
                        bad.append('parent')
                    if not any(m in (('a', me, '_section'), ('a', me, 'section')) for m in members(sec)):
                        bad.append('section')
                    if not any(e2.kind == 'MUT' and e2.args[1] in ADD and ('a', me, 'children') in members(e2.args[0])
                               for e2 in p.events('MUT')) and not any(
                            e2.kind == 'STORE' and e2.args[1] == 'children' and has(e2.args[0], me)
                            for e2 in p.events('STORE')) and not p.calls(
                            ('Term.add_child',)):
                        bad.append('place among the children')
                if not any(m in (('a', me, 'doc'), ('a', me, '_doc')) or m[0] == 'a' and m[2] in ('doc', '_doc') and
                           me in set(walk(m)) for m in members(doc)):
                    bad.append('document')
                for b in bad:
                    findings.append(Finding('created-in-place', e.where, b, '%s creates a term without the %s of its owner'
                                            % (f.qual, b), it.chain()))
        if n == 0:
            raise AnalysisError('%s creates nothing' % f.qual)
        return pack(it, findings, obs)

    sweep(ck, [prog.func('metatab.terms', q) for q in ('Term.new_child', 'Term.get_or_new_child', 'SectionTerm.new_term')],
          create, label=lambda f: f.qual)

    # ---------------------------------------------------------------- ownership
    def own(f, cap):
        findings = []

        def o(ev, st, it):
            return ev.kind in ('ITER', 'ITEREND', 'BREAK') or ev.kind == 'CALL' and ev.args[0] == f.qual or track(ev, st, it)

        it = Interp(prog, atoms=at, cap=cap, observers=[o])
        me = ('p', 'self')
        n = 0
        for st, kind, v in it.run(f):
            if kind == 'raise':
                continue
            evs = st.events
            for i, e in enumerate(evs):
                if e.kind == 'ITER' and e.args[1] == ('e', ('a', me, 'children')):
                    el = e.args[1]
                    inner = []
                    for e2 in evs[i + 1:]:
                        if e2.kind == 'ITEREND' and e2.args[1] == el:
                            break
                        inner.append(e2)
                    n += 1
                    sec = any(e2.kind == 'STORE' and e2.args[0] == el and e2.args[1] in ('section', '_section') for e2 in inner)
                    doc = any(e2.kind == 'STORE' and e2.args[0] == el and e2.args[1] in ('doc', '_doc') for e2 in inner)
                    rec = any(e2.kind == 'CALL' and e2.args[0] == f.qual and has(dict(e2.args[1])['self'], el) for e2 in inner)
                    for ok, what in ((sec, 'section'), (doc, 'document'), (rec, 'descendents')):
                        if not ok:
                            findings.append(Finding('ownership', e.where, what, 'set_ownership can pass over a child without '
                                                    'setting its %s' % what))
        if n == 0:
            for st, kind, v in it.run(f):
                for e in st.events:
                    if e.kind == 'STORE' and e.args[1] in ('section', '_section'):
                        n += 1
            if n == 0:
                findings.append(Finding('ownership', (f.module.path, f.qual, f.node.lineno), 'none',
                                        'set_ownership does not go over the children'))
        return pack(it, findings, [('ownership', '%s: %d iterations' % (f.qual, n))])

    sweep(ck, [prog.func('metatab.terms', 'Term.set_ownership')], own, label=lambda f: f.qual)

    # ---------------------------------------------------------------- changing a list while iterating it
    def affected(ev, it, st):
        """Lists that a call or container change modifies."""
        if ev.kind == 'MUT':
            for m in members(ev.args[0]):
                yield m, ev.args[1]
            return
        q, b = ev.args[0], dict(ev.args[1])
        s = b.get('self')
        if q in ('Term.remove_child', 'Term.new_child', 'Term.add_child'):
            yield ('a', s, 'children'), q
        elif q in ('SectionTerm.remove_term', 'SectionTerm.add_term', 'SectionTerm.new_term', 'SectionTerm.clean',
                   'SectionTerm.__delitem__'):
            yield ('a', s, 'terms'), q
        if q in ('MetatabDoc.remove_term', 'SectionTerm.remove_term', 'Term.remove_child', 'MetatabDoc.add_term'):
            t = b.get('t', b.get('term', b.get('child')))
            if t is not None:
                for m in members(t):
                    if m[0] == 'e':
                        yield m[1], q
            if q.startswith('MetatabDoc'):
                yield ('a', s, 'terms'), q
        elif q == 'MetatabDoc.__delitem__':
            yield ('a', s, 'sections'), q

    SIZE = ADD | REM | {'popitem', 'popleft'}

    def live(f, cap):
        findings = []

        def o(ev, st, it):
            if it.assert_depth:
                return False
            if ev.kind in ('ITER', 'ITEREND', 'BREAK'):
                return True
            if ev.kind == 'MUT':
                return ev.args[1] in SIZE
            return ev.kind == 'CALL' and (ev.args[0] in REMOVE or ev.args[0] in ADD_TERM or ev.args[0] in (
                'Term.new_child', 'Term.add_child', 'SectionTerm.new_term', 'SectionTerm.clean', 'SectionTerm.__delitem__',
                'MetatabDoc.__delitem__'))

        def live_lists(itv):
            for m in members(itv):
                if m[0] == 'x' and m[1] in LIVE and m[2]:
                    yield ('a', m[2][0], LIVE[m[1]])
                    yield m
                elif m[0] == 'x' and m[1] in ('enumerate', 'reversed', 'iter', 'zip', 'filter', 'map') and m[2]:
                    for a in m[2]:
                        yield from live_lists(a)
                elif m[0] == 'x' and m[1] in ('.items', '.values', '.keys') and m[2]:
                    yield m[2][0]
                else:
                    yield m

        it = Interp(prog, atoms=at, cap=cap, observers=[o])
        for st, kind, v in it.run(f):
            stack = []
            evs = st.events
            for i, e in enumerate(evs):
                if e.kind == 'ITER':
                    ls = set(live_lists(e.args[0]))
                    for m in members(e.args[1]):
                        # iterating an object iterates what its __iter__ goes over
                        if m[0] == 'e' and m[1][0] == 'x' and m[1][1] in LIVE and m[1][2] and m[1][2][0] in ls:
                            ls |= set(live_lists(m[1]))
                    stack.append((e.args[0], e.args[1], ls))
                elif e.kind in ('ITEREND', 'BREAK'):
                    for j in range(len(stack) - 1, -1, -1):
                        if stack[j][1] == e.args[1] and stack[j][0] == e.args[0]:
                            del stack[j:]
                            break
                elif stack:
                    for lst, what in affected(e, it, st):
                        for itv, el, ls in stack:
                            if lst in ls and (lst[0] in ('a', 'n', 'p') or lst[0] == 'x' and lst[1] in LIVE):
                                # harmless when the loop is left right away
                                rest = evs[i + 1:]
                                cont = any(e2.kind == 'ITEREND' and e2.args[0] == itv for e2 in rest)
                                nodups = lst[0] == 'a' and lst[2] == 'sections' or not (
                                    e.kind == 'MUT' and e.args[1] == '__setitem__')
                                if cont and nodups:
                                    findings.append(Finding('live-iteration', e.where, '%s %s' % (what, show(lst)[:60]),
                                                            '%s changes %s (%s) while iterating it' % (
                                                                f.qual, show(lst), what)))
        return pack(it, findings, [('live-iteration', f.module.name + ':' + f.qual)])

    sweep(ck, entries(prog, private=True), live, label=lambda f: f.qual, caps=(96, 24, 6))

    # ---------------------------------------------------------------- identity
    ck.ob('identity', 'Term and its subclasses')
    for c in prog.classes.values():
        if any((k if isinstance(k, str) else k.name) == 'Term' for k in c.mro()):
            for n in ('__eq__', '__hash__', '__bool__', '__len__'):
                if n in c.methods:
                    ck.fail('identity', (c.module.path, c.name, c.methods[n].node.lineno), n,
                            '%s defines %s, so tests for presence or membership of a term no longer mean the object' % (
                                c.name, n))

    # ---------------------------------------------------------------- sections are kept
    def kept(f, cap):
        findings, obs = [], []

        def o(ev, st, it):
            if ev.kind == 'MUT' and ev.args[1] == '__setitem__' and any(fl == 'sections' for ow, fl in lists(ev.args[0])):
                k = ev.args[3][0]
                ok = any(c[0] == 'o' and c[1] == 'in' and c[2] == k and c[3] in members(ev.args[0]) and b is False
                         for c, b in st.conds.items())
                got = ('i', members(ev.args[0])[0], k)
                ok = ok or any(c[0] == 'o' and c[1] == 'isnone' and b is True and any(w == got for w in walk(c))
                               for c, b in st.conds.items())
                ok = ok or any(b is False and (c == got or got in members(c)) for c, b in st.conds.items())
                ok = ok or bool(st.events) and any(e.kind == 'HANDLER' for e in st.events)
                obs.append(('section-kept', '%s: %s' % (f.qual, show(k))))
                if not ok:
                    findings.append(Finding('section-kept', ev.where, show(k), '%s can replace an existing section' % f.qual,
                                            it.chain()))
            return ev.kind == 'HANDLER'

        it = Interp(prog, atoms=at, cap=cap, observers=[o])
        it.run(f)
        return pack(it, findings, obs or [('section-kept', f.qual)])

    sweep(ck, [prog.func('metatab.doc', 'MetatabDoc.add_section'), prog.func('metatab.doc', 'MetatabDoc.get_or_new_section')],
          kept, label=lambda f: f.qual)


def conds_text(p):
    return ', '.join('%s is %s' % (show(k)[:70], b) for k, b in p.conds.items())[:400]
