"""C34 An edit changes exactly what it names."""
from ..common import *

ME = ('p', 'self')
PATH = ('u', 'path')
DOC = ('p', '@doc')
TERM = ['Term.join_lc', 'Term.join', 'Term.record_term_lc', 'Term.parent_term_lc', 'Term.find_first', 'Term.find',
        'Term.__getitem__', 'Term.__setitem__', 'Term.__delitem__', 'Term.get_or_new_child', 'Term.new_child', 'Term.new_children',
        'Term.add_child', 'Term.remove_child', 'Term.__init__', 'Term.split_term', 'Term.split_term_lower', 'Term.get',
        'Term.get_value', 'Term.find_first_value', 'Term.term', 'Term.term.setter', 'Term.section', 'Term.section.setter',
        'Term.doc', 'Term.doc.setter', 'Term.__setattr__', 'Term.find_value', 'Term.term_is', 'Term.is_terminal']
SECTION = ['SectionTerm.' + n for n in (
    'name', 'add_arg', 'remove_arg', 'add_term', 'new_term', 'get_term', 'find_first', 'find', 'find_first_value',
    'get_or_new_term', 'set_terms', 'remove_term', 'clean', 'sort_by_term', '__getitem__', '__setitem__', '__delitem__',
    '__iter__', '__init__')]
DOCF = ['MetatabDoc.' + n for n in ('add_term', 'remove_term', 'add_section', 'new_section', 'get_or_new_section', 'get_section',
                                    'section_args', 'sort_sections', '__getitem__', '__delitem__', '__contains__', '__iter__')]


def elements(v, st, it):
    """The elements of a dict with known keys, or of one of its views, in their order."""
    d, view = v, 'keys'
    if v[0] == 'x' and v[1] in ('keys', 'items', 'values') and len(v[2]) == 1:
        d, view = v[2][0], v[1]
    if d == ('p', 'kwargs') or d == ('p', 'kw_terms'):
        es = it.kwargs
    elif d == ('p', 'terms') and view == 'keys':
        return list(it.posargs)
    elif d[0] == 'n' and d[1] == 'dict' and it.tracked(st, d):
        es = [(k[2], w) for k, w in st.heap.items() if k[0] == d and len(k) == 3 and k[1] == '[k]']
    else:
        return None
    return [('t', k, w) if view == 'items' else w if view == 'values' else k for k, w in es]


def matches(parent, record, name):
    n = name.lower()
    p, _, r = n.rpartition('.') if '.' in n else ('root', '', n)
    return (p == '*' or p == parent.lower()) and (r == '*' or r == record.lower())


class World:
    """A document with two sections and some terms, all of whose names and values are known."""

    current = []        # the interpreter of the edit

    def __init__(self, prog):
        self.prog = prog
        self.heap = {}
        self.types = {DOC: 'MetatabDoc'}
        self.names = {}
        self.n = 0

    def term(self, name, group, value, record, typ='Term', **attrs):
        t = ('p', '@' + name) if isinstance(name, str) else name
        self.types[t] = typ
        self.names[t] = (group, record)
        h = self.heap
        h[(t, 'record_term')] = C(record)
        h[(t, 'parent_term')] = C(group)
        h[(t, 'value')] = C(value)
        h[(t, 'doc')] = DOC
        h[(t, '_doc')] = DOC
        h[(t, 'parent')] = NONE
        h[(t, 'children')] = self.list([])
        h[(t, 'term_value_name')] = C('Tvn')
        h[(t, 'child_property_type')] = C('any')
        for k, v in attrs.items():
            h[(t, k)] = v
        return t

    def list(self, vals):
        self.n += 1
        n = ('n', 'list', '@%d' % self.n)
        self.heap[(n, '#seq')] = ('t',) + tuple(vals)
        if vals:
            self.heap[(n, '[]')] = phi(vals)
        return n

    def dict(self, entries):
        self.n += 1
        d = ('n', 'dict', '@%d' % self.n)
        for k, v in entries:
            self.heap[(d, '[k]', C(k))] = v
        if entries:
            self.heap[(d, '{k}')] = phi([C(k) for k, _ in entries])
            self.heap[(d, '{}')] = phi([v for _, v in entries])
        else:
            self.heap[(d, '#empty')] = TRUE
        return d

    def document(self, terms, secs, **attrs):
        """terms: of the document; secs: (key, section, its terms)."""
        h = self.heap
        h[(DOC, 'terms')] = self.list(terms)
        h[(DOC, 'sections')] = self.dict([(k, s) for k, s, _ in secs])
        h[(DOC, 'decl_terms')] = self.dict([])
        h[(DOC, 'decl_sections')] = self.dict([])
        for k, s, ts in secs:
            h[(s, 'terms')] = self.list(ts)
            h[(s, 'default_term_value_name')] = C('@value')
            for t in ts:
                h[(t, '_section')] = s
                h[(t, 'section')] = s
        for k, v in attrs.items():
            h[(DOC, k)] = v

    def interp(self, cap, extra=None, kwargs=(), posargs=()):
        at = {'MetatabDoc.get_term_class': lambda st, b, it: ('C', 'Term'),
              'MetatabDoc.find_first': self.find_first, 'MetatabDoc.find': self.find,
              'MetatabDoc.get': self.find_first}
        at.update(extra or {})
        it = Interp(self.prog, atoms=boundaries(self.prog, inline=TERM + SECTION + DOCF, extra=at), cap=cap, comp_paths=True,
                    merge_calls=False, implicit=False)
        it.precise = it.exact_comp = it.seqs = True
        it.iter_hook = elements
        it.kwargs = [(C(k), v) for k, v in kwargs]
        it.posargs = posargs
        typeof, truth = it.typeof, it.truth
        it.typeof = lambda st, v: self.types.get(v) or typeof(st, v)

        def tr(st, v):
            if v in self.types:
                return True
            if v in (('p', 'kwargs'), ('p', 'kw_terms')):
                return bool(it.kwargs)
            if v[0] == 'o' and v[1] in ('==', 'is'):
                a, b = v[2:4]
                if a in self.types and (b in self.types or b[0] == 'n') or b in self.types and a[0] == 'n':
                    return a == b
            if v[0] == 'o' and v[1] == 'in' and (v[2] in self.types or v[2][0] == 'n'):
                els = it.exact(st, v[3])
                if els is not None and all(e in self.types or e[0] == 'n' for e in els):
                    return v[2] in els
            return truth(st, v)
        it.truth = tr
        run, it.paths = it.run, []
        World.current[:] = [it]

        def counted(*a, **kw):
            it.paths = []
            for st, k, v in run(*a, **kw):
                it.paths.append([st, k, []])
                yield st, k, v
        it.run = counted
        return it

    def find(self, st, b, it):
        name, value, sec = b.get('term'), b.get('value', FALSE), b.get('section', NONE)
        if name is None or not is_const(name) or not is_const(value) or not is_const(sec):
            return x('unknown search', *[w for w in b.values() if isinstance(w, tuple)])
        out = []
        for t in it.exact(st, st.heap[(DOC, 'terms')]) or []:
            if t in self.names and matches(*self.names[t], cval(name)):
                s = st.heap.get((t, '_section'))
                own = s and st.heap.get((s, 'value'))
                if cval(sec) is not None and not (own and cval(own).lower() == cval(sec).lower()):
                    continue
                v = st.heap.get((t, 'value'))
                if cval(value) is False or v == value:
                    out.append(t)
        return ('t',) + tuple(out)

    def find_first(self, st, b, it):
        r = self.find(st, b, it)
        return r if r[0] != 't' else r[1] if len(r) > 1 else NONE


def bare(v):
    return C(cval(v).strip()) if is_const(v) and isinstance(cval(v), str) else v


def text(vs):
    return '[' + ', '.join(show(v) for v in vs) + ']'


def run(prog, ck, thorough):
    ck.rule('property', 'setting a property sets the first child of that name, or adds one at the end, and changes no other child; '
                        'None removes it, the value name sets the value', 0)
    ck.rule('delete', 'deleting a name from a section, or a section from a document, removes exactly the terms it names', 0)
    ck.rule('columns', 'a column that is added is listed once, at the end that was asked for, one that is removed is not listed, '
                       'and the others stay as they are', 0)
    ck.rule('sorted', 'sorting lists every term or section once: those that are named, in that order, then the rest', 0)
    ck.rule('section', 'a term or section that is asked for is the one that is there, or one new one at the end', 0)
    ck.notes.append('the edits are followed for lists with up to five elements with known names; a path whose lists are not '
                    'known any more at its end is not decided')

    def where(f):
        return (f.module.path, f.qual, f.node.lineno)

    jobs = []

    def job(rule, f, label):
        def deco(g):
            jobs.append((rule, f, label, g))
            return g
        return deco

    # ------------------------------------------------------------------------------------------ properties
    setitem = prog.func('terms', 'Term.__setitem__')
    gonc = prog.func('terms', 'Term.get_or_new_child')
    KIDS = ['xa', 'Xb', 'xb', 'xc']

    def family(values=None):
        w = World(prog)
        w.term(ME, 'Root', 'mine', 'Foo')
        kids = []
        for i, n in enumerate(KIDS):
            k = w.term('k%d' % i, 'Foo', values[i] if values else 'v%d' % i, n, parent=ME, _section=('p', '@sec'), section=('p', '@sec'))
            kids.append(k)
        w.types[('p', '@sec')] = 'SectionTerm'
        w.heap[(('p', '@sec'), 'value')] = C('Seca')
        w.heap[(('p', '@sec'), 'doc')] = DOC
        w.heap[(ME, 'children')] = w.list(kids)
        w.heap[(ME, '_section')] = w.heap[(ME, 'section')] = ('p', '@sec')
        w.document([ME], [('seca', ('p', '@sec'), [ME])])
        return w, kids

    def judge_children(it, st, w, kids, target, value, name, fail, own='mine', values=None):
        """target: the child that is to have the value, None for a new one, 'removed:i', or 'none'."""
        after = it.exact(st, st.heap.get((ME, 'children'), TOP))
        if after is None:
            return False
        want = list(kids)
        if isinstance(target, str) and target.startswith('removed:'):
            want.remove(kids[int(target[8:])])
        news = [k for k in after if k not in kids]
        if target is None:
            if len(news) != 1 or after != kids + news:
                fail('the children are %s afterwards' % text(after))
                return True
            rec = st.heap.get((news[0], 'record_term'))
            if rec is not None and is_const(rec) and cval(rec).lower() != name.lower():
                fail('the new child is named %r' % cval(rec))
            v = st.heap.get((news[0], 'value'))
            if v is not None and is_const(v) and not (v in (value, bare(value)) or value in (C(''), FALSE, NONE) and v in (NONE, C('')) or
                                                      cval(v) == cval(value) == str(cval(value)) or
                                                      is_const(value) and v == C(str(cval(value)))):
                fail('the new child has the value %s' % show(v))
        elif after != want:
            fail('the children are %s afterwards, not %s' % (text(after), text(want)))
            return True
        for i, k in enumerate(kids):
            v = st.heap.get((k, 'value'))
            need = value if target == i else C(values[i] if values else 'v%d' % i)
            if k in after and v is not None and is_const(v) and v != need and not (
                    target == i and (need == C('') and v == NONE or v == bare(need))):
                fail('the child %s has the value %s, not %s' % (KIDS[i], show(v), show(need)))
        v = st.heap.get((ME, 'value'))
        if is_const(v) and v != C(own):
            fail('the value of the term is %s' % show(v))
        return True

    cases = []
    for value in (C('new'), C(''), C(0), C('v1'), C('v2'), C(' new ')):
        cases += [('xa', value, 0), ('XB', value, 1), ('xb', value, 1), ('Foo.xc', value, 3), ('zz', value, None), ('Foo.zz', value, None), ('Foo', value, None), ('x', value, None)]
    cases += [('xa', NONE, 'removed:0'), ('xb', NONE, 'removed:1'), ('XC', NONE, 'removed:3'), ('zz', NONE, 'none')]
    for item, value, target in cases:
        @job('property', setitem, 'term[%r] = %s' % (item, show(value)))
        def g(cap, fail, item=item, value=value, target=target):
            w, kids = family()
            it = w.interp(cap)
            n = 0
            for st, k, v in it.run(setitem, {'item': C(item), 'value': value}, heap=dict(w.heap)):
                if k == 'return':
                    n += bool(judge_children(it, st, w, kids, target, value, item.rpartition('.')[2], fail))
            return it, n
    for item, value in (('Tvn', C('new')), ('tvn', C('')), ('VALUE', C('new')), ('value', C(0)), ('value', NONE), ('tvn', NONE)):
        @job('property', setitem, 'term[%r] = %s, of its value name' % (item, show(value)))
        def g(cap, fail, item=item, value=value):
            w, kids = family()
            it = w.interp(cap)
            n = 0
            for st, k, v in it.run(setitem, {'item': C(item), 'value': value}, heap=dict(w.heap)):
                if k == 'return' and is_const(st.heap.get((ME, 'value'), TOP)):
                    own = cval(st.heap[(ME, 'value')])
                    if C(own) != value and not (value == C('') and own is None):
                        fail('the value of the term is %r afterwards' % (own,))
                    n += bool(judge_children(it, st, w, kids, 'none', value, item, fail, own=own))
            return it, n
    for item, value, target in (('xb', C('new'), 1), ('xb', FALSE, 'none'), ('xb', C(''), 1), ('xb', C(0), 1), ('zz', C('new'), None),
                                ('Foo.xa', C('new'), 0)):
        @job('property', gonc, 'get_or_new_child(%r, %s)' % (item, show(value)))
        def g(cap, fail, item=item, value=value, target=target):
            w, kids = family()
            it = w.interp(cap)
            n = 0
            for st, k, v in it.run(gonc, {'term': C(item), 'value': value}, heap=dict(w.heap)):
                if k == 'return':
                    n += bool(judge_children(it, st, w, kids, target, value, item.rpartition('.')[2], fail))
                    after = it.exact(st, st.heap.get((ME, 'children'), TOP))
                    want = kids[target] if isinstance(target, int) else kids[KIDS.index(item.title() if item == 'xb' else item)] \
                        if target == 'none' else after[-1] if after else None
                    if after and v != want and (v in kids or v == NONE):
                        fail('%s is returned' % show(v))
            return it, n

    # ------------------------------------------------------------------------------------------ columns
    more = (['', 'x', 'B', ' '], ['A b', 'a', 'AB', 'b a'], ['Zz', 'c d', 'C D']) if thorough else ()
    COLS = (['A', ' b ', '', 'C d'], [], ['B'], ['', ' '], ['b', 'A', 'b'], ['Bb', 'B', 'Abc'], ['A', 'b', 'B', 'b', 'C'])
    for fn in ('add_arg', 'remove_arg'):
        f = prog.func('terms', 'SectionTerm.' + fn)
        for cols in COLS + more:
            for arg in ('b', 'B', 'Zz', 'c D', 'bb', 'a', 'c'):
                for prepend in ((False, True) if fn == 'add_arg' else (False,)):
                    @job('columns', f, '%s(%r%s) with the columns %r' % (fn, arg, ', prepend' if prepend else '', cols))
                    def g(cap, fail, f=f, fn=fn, cols=cols, arg=arg, prepend=prepend):
                        w = World(prog)
                        w.term(ME, 'Root', 'Seca', 'Section', 'SectionTerm')
                        w.heap[(ME, 'args')] = w.list([C(c) for c in cols])
                        it = w.interp(cap)
                        args = {'arg': C(arg)}
                        if fn == 'add_arg':
                            args['prepend'] = C(prepend)
                        n = 0
                        kept = [c.strip() for c in cols if c.strip()]
                        if fn == 'remove_arg':
                            want = [c for c in kept if c.lower() != arg.lower()]
                        elif arg.lower() in [c.lower() for c in kept]:
                            want = kept
                        else:
                            want = [arg] + kept if prepend else kept + [arg]
                        for st, k, v in it.run(f, args, heap=dict(w.heap)):
                            got = it.exact(st, st.heap.get((ME, 'args'), TOP)) if k == 'return' else None
                            if got is None or not all(is_const(c) for c in got):
                                continue
                            n += 1
                            got = [cval(c) for c in got]
                            seen = [c.strip() for c in got if isinstance(c, str) and c.strip()]
                            same = [c.lower() if c.lower() == arg.lower() and arg.lower() not in [
                                d.lower() for d in kept] else c for c in seen]
                            if same != [c.lower() if c == arg and want != kept and c not in kept else c for c in want]:
                                fail('the columns are %r afterwards, not %r' % (got, want))
                        return it, n

    # ------------------------------------------------------------------------------------------ sorting
    sbt = prog.func('terms', 'SectionTerm.sort_by_term')
    import itertools
    shapes = [list(q) for n in (2, 3, 4) for q in itertools.product('aBb', repeat=n)] if thorough else []
    for names in [['c', 'A', 'b', 'a', 'd'], ['B', 'b', 'a'], ['a'], []] + shapes:
        for order in (None, [], ['root.b', 'root.a'], ['Root.C', 'root.zz'], ['root.*'], ['*.b', 'root.b', 'root.*'], ['d', 'root.d']):
            @job('sorted', sbt, 'sort_by_term(%r) of the terms %r' % (order, names))
            def g(cap, fail, names=names, order=order):
                w = World(prog)
                w.term(ME, 'Root', 'Seca', 'Section', 'SectionTerm')
                ts = [w.term('t%d' % i, 'Root', 'v%d' % (9 - i), n) for i, n in enumerate(names)]
                w.document(ts, [('seca', ME, ts)])
                want, rest = [], list(range(len(ts)))
                for o in order or ():
                    for i in list(rest):
                        if matches('root', names[i], o):
                            rest.remove(i)
                            want.append(i)
                want += sorted(rest, key=lambda i: 'root.' + names[i].lower())
                want = [ts[i] for i in want]
                it = w.interp(cap)
                n = 0
                o = NONE if order is None else ('t',) + tuple(C(c) for c in order)
                for st, k, v in it.run(sbt, {'order': o}, heap=dict(w.heap)):
                    got = it.exact(st, st.heap.get((ME, 'terms'), TOP)) if k == 'return' else None
                    if got is None:
                        continue
                    n += 1
                    if got != want:
                        fail('the terms are %s afterwards, not %s' % (text(got), text(want)))
                    of = it.exact(st, st.heap.get((DOC, 'terms'), TOP))
                    if of is not None and sorted(of) != sorted(ts):
                        fail('the terms of the document are %s afterwards' % text(of))
                return it, n

    ss = prog.func('doc', 'MetatabDoc.sort_sections')
    SECS = ['root', 'sb', 'sa', 'sc']
    orders = [list(q) for n in (1, 2, 3, 4) for q in itertools.permutations(['Root', 'sb', 'SA', 'zz'], n)] if thorough else []
    for order in [[], ['SC', 'zz', 'sa'], ['Root'], ['sc', 'SC', 'Sb'], ['sc', 'sa', 'sb', 'root'], ['zz']] + orders:
        @job('sorted', ss, 'sort_sections(%r)' % order)
        def g(cap, fail, order=order):
            w = World(prog)
            secs = [(s, w.term(s, 'Root', s.title(), 'Section', 'SectionTerm'), []) for s in SECS]
            w.document([], secs)
            w.heap.update({(ME, k[1]): v for k, v in w.heap.items() if k[0] == DOC and len(k) == 2})
            want = []
            for s in [o.lower() for o in order] + SECS:
                if s in SECS and s not in want:
                    want.append(s)
            it = w.interp(cap)
            n = 0
            for st, k, v in it.run(ss, {'order': ('t',) + tuple(C(o) for o in order)}, heap=dict(w.heap)):
                d = st.heap.get((ME, 'sections'), TOP)
                got = elements(x('items', d), st, it) if k == 'return' else None
                if got is None:
                    continue
                n += 1
                if [e[1] for e in got] != [C(s) for s in want]:
                    fail('the sections are %s afterwards, not %s' % (text([e[1] for e in got]), want))
                elif any(e[2] != ('p', '@' + cval(e[1])) for e in got):
                    fail('a section is listed under the name of another')
            return it, n

    # ------------------------------------------------------------------------------------------ sections
    def book(values=None):
        """A section self with the terms xa, Xb, xb, xc, another one with xb, and the root section."""
        w = World(prog)
        root, other = ('p', '@root'), ('p', '@other')
        w.term(ME, 'Root', 'Seca', 'Section', 'SectionTerm')
        w.term(other, 'Root', 'Other', 'Section', 'SectionTerm')
        w.term(root, 'Root', 'Root', 'Root', 'RootSectionTerm')
        for s in (ME, other, root):
            w.heap[(s, 'args')] = w.list([])
        mine = [w.term('t%d' % i, 'Root', values or 'v%d' % i, n) for i, n in enumerate(KIDS)]
        alien = [w.term('u0', 'Root', values or 'w0', 'xb')]
        w.document(alien + mine, [('root', root, []), ('other', other, alien), ('seca', ME, mine)])
        return w, mine, alien, other

    def lists(it, st):
        return (it.exact(st, st.heap.get((ME, 'terms'), TOP)), it.exact(st, st.heap.get((DOC, 'terms'), TOP)),
                it.exact(st, st.heap.get((('p', '@other'), 'terms'), TOP)))

    dele = prog.func('terms', 'SectionTerm.__delitem__')
    for item, values in ((i, vs) for i in ('xb', 'Root.xa', 'XC', 'zz', 'root.*', '*.xb', 'x') for vs in (None, 'v')):
        @job('delete', dele, 'del section[%r]%s' % (item, ' with equal values' if values else ''))
        def g(cap, fail, item=item, values=values):
            w, mine, alien, other = book(values)
            it = w.interp(cap)
            n = 0
            keep = [t for t, nm in zip(mine, KIDS) if not matches('root', nm, item)]
            for st, k, v in it.run(dele, {'item': C(item)}, heap=dict(w.heap)):
                a, b, c = lists(it, st) if k == 'return' else (None,) * 3
                if a is not None:
                    n += 1
                    if a != keep:
                        fail('the section lists %s afterwards, not %s' % (text(a), text(keep)))
                if b is not None and b != alien + keep:
                    fail('the document lists %s afterwards, not %s' % (text(b), text(alien + keep)))
                if c is not None and c != alien:
                    fail('the other section lists %s afterwards' % text(c))
            return it, n

    gont = prog.func('terms', 'SectionTerm.get_or_new_term')
    sset = prog.func('terms', 'SectionTerm.__setitem__')
    newt = prog.func('terms', 'SectionTerm.new_term')

    def term_case(f, args, target, name, value, label, kwargs=()):
        @job('section', f, label)
        def g(cap, fail):
            w, mine, alien, other = book()
            it = w.interp(cap, kwargs=kwargs)
            n = 0
            for st, k, v in it.run(f, args, heap=dict(w.heap)):
                if k != 'return':
                    continue
                a, b, c = lists(it, st)
                if a is None or b is None:
                    continue
                n += 1
                new = [t for t in b if t not in mine + alien]
                if c is not None and c != alien:
                    fail('the other section lists %s afterwards' % text(c))
                if target is None:
                    if len(new) != 1 or a != mine + new or b != alien + mine + new:
                        fail('the section lists %s and the document %s afterwards' % (text(a), text(b)))
                        continue
                    rec, val = st.heap.get((new[0], 'record_term')), st.heap.get((new[0], 'value'))
                    if rec is not None and is_const(rec) and cval(rec).lower() != name:
                        fail('the new term is named %r' % cval(rec))
                    if val is not None and is_const(val) and val != value and not (
                            value in (C(''), FALSE, NONE) and val in (NONE, C(''))) and not val == C(str(cval(value))):
                        fail('the new term has the value %s' % show(val))
                elif a != mine or b != alien + mine:
                    fail('the section lists %s and the document %s afterwards' % (text(a), text(b)))
                for i, t in enumerate(mine + alien):
                    val = st.heap.get((t, 'value'))
                    old = C('v%d' % i) if t in mine else C('w0')
                    if val is not None and is_const(val) and val != (value if i == target and value not in (NONE, FALSE) else old):
                        fail('the term %s has the value %s' % (show(t), show(val)))
                if f is not sset and v in mine + alien and (target is None or v != mine[target]):
                    fail('%s is returned' % show(v))
                # the properties
                if kwargs:
                    t = mine[target] if target is not None else new[0]
                    kids = it.exact(st, st.heap.get((t, 'children'), TOP))
                    if kids is not None:
                        got = [(cval(st.heap[(q, 'record_term')]).lower(), st.heap.get((q, 'value'))) for q in kids
                               if is_const(st.heap.get((q, 'record_term'), TOP))]
                        if [q for q, _ in got] != [q.lower() for q, _ in kwargs] or any(
                                is_const(v1) and v1 != v2 for (_, v1), (_, v2) in zip(got, kwargs)):
                            fail('the properties of the term are %s' % [q for q, _ in got])
            return it, n

    for f, pos in ((gont, ('term', 'value')), (sset, ('item', 'value'))):
        for name, value, target in (('xa', C('v0'), 0), ('xb', C('v2'), 2), ('Root.Xb', C('v1'), 1), ('zz', C('new'), None),
                                    ('zz', C(0), None), ('zz', C(''), None), ('xb', C('w0'), None), ('xa', C('other'), None)):
            term_case(f, {pos[0]: C(name), pos[1]: value}, target, name.rpartition('.')[2].lower(), value,
                      '%s(%r, %s)' % (f.qual, name, show(value)))
    term_case(gont, {'term': C('xb'), 'value': FALSE}, 1, 'xb', FALSE, 'get_or_new_term(\'xb\')')
    for kw in ((('pa', C('1')), ('pb', C('2'))),):
        term_case(gont, {'term': C('xb'), 'value': C('v2')}, 2, 'xb', C('v2'), 'get_or_new_term(xb, properties)', kw)
        term_case(gont, {'term': C('zz'), 'value': C('new')}, None, 'zz', C('new'), 'get_or_new_term(zz, properties)', kw)
        term_case(newt, {'term': C('zz'), 'value': C('new')}, None, 'zz', C('new'), 'new_term(zz, properties)', kw)
    for value in (C('new'), C(''), C(0), C('v1')):
        term_case(newt, {'term': C('xb'), 'value': value}, None, 'xb', value, 'new_term(xb, %s)' % show(value))

    sett = prog.func('terms', 'SectionTerm.set_terms')
    for val, value, props in ((C('new'), C('new'), ()), (C('ab'), C('ab'), ()), (C(''), C(''), ()), (C(0), C(0), ()),
                              (('t', C('new'), {'pa': '1', 'pb': '2'}), C('new'), (('pa', '1'), ('pb', '2'))),
                              (('t', C('new'), {}), C('new'), ())):
        @job('section', sett, 'set_terms(zz=%s)' % (show(val) if is_const(val) else '(%s, {...})' % show(val[1])))
        def g(cap, fail, val=val, value=value, props=props):
            w, mine, alien, other = book()
            if val[0] == 't':
                val = val[:2] + (w.dict([(k, C(v)) for k, v in val[2].items()]),)
            it = w.interp(cap, kwargs=[('Zz', val), ('Yy', C('last'))])
            n = 0
            for st, k, v in it.run(sett, {}, heap=dict(w.heap)):
                if k == 'raise':
                    continue
                a, b, c = lists(it, st)
                if a is None or b is None:
                    continue
                n += 1
                new = [t for t in b if t not in mine + alien]
                if len(new) != 2 or a != mine + new or b != alien + mine + new:
                    fail('the section lists %s and the document %s afterwards' % (text(a), text(b)))
                    continue
                for t, nm, vl, pr in zip(new, ('zz', 'yy'), (value, C('last')), (props, ())):
                    rec, got = st.heap.get((t, 'record_term')), st.heap.get((t, 'value'))
                    if rec is not None and is_const(rec) and cval(rec).lower() != nm:
                        fail('a new term is named %r' % cval(rec))
                    if got is not None and got != vl and (is_const(got) or got[0] in ('t', 'n')) and not (
                            vl == C('') and got == NONE) and got != C(str(cval(vl))):
                        fail('a new term has the value %s' % show(got))
                    kids = it.exact(st, st.heap.get((t, 'children'), TOP))
                    if kids is not None:
                        have = [(cval(st.heap[(q, 'record_term')]).lower(), st.heap.get((q, 'value'))) for q in kids
                                if is_const(st.heap.get((q, 'record_term'), TOP))]
                        if [q for q, _ in have] != [q for q, _ in pr] or any(
                                is_const(v1) and v1 != C(v2) for (_, v1), (_, v2) in zip(have, pr)):
                            fail('the properties of a new term are %s' % [q for q, _ in have])
            return it, n

    @job('section', sett, 'set_terms(a term, a term)')
    def g(cap, fail):
        w, mine, alien, other = book()
        t = w.term('t9', 'Root', 'v9', 'zz', section=NONE, _section=NONE)
        it = w.interp(cap, posargs=[alien[0], mine[0]])
        n = 0
        for st, k, v in it.run(sett, {}, heap=dict(w.heap)):
            a, b, c = lists(it, st)
            if k == 'return' and a is not None and c is not None:
                n += 1
                if a != mine + alien or c != []:
                    fail('the section lists %s and the one of the first term %s afterwards' % (text(a), text(c)))
        return it, n

    clean = prog.func('terms', 'SectionTerm.clean')

    @job('delete', clean, 'clean()')
    def g(cap, fail):
        w, mine, alien, other = book()
        it = w.interp(cap)
        n = 0
        for st, k, v in it.run(clean, {}, heap=dict(w.heap)):
            a, b, c = lists(it, st)
            if k == 'return' and a is not None and b is not None:
                n += 1
                if a or b != alien or c is not None and c != alien:
                    fail('the section lists %s and the document %s afterwards' % (text(a), text(b)))
        return it, n

    rem = prog.func('terms', 'SectionTerm.remove_term')
    for i, values in ((i, vs) for i in (0, 1, 2, 3) for vs in (None, 'v')):
        for whole in (True, False):
            @job('delete', rem, 'remove_term(the term %d%s%s)' % (i, ' of equal ones' if values else '',
                                                                  '' if whole else ', only from the section'))
            def g(cap, fail, i=i, whole=whole, values=values):
                w, mine, alien, other = book(values)
                it = w.interp(cap)
                n = 0
                left = [t for t in mine if t != mine[i]]
                for st, k, v in it.run(rem, {'term': mine[i], 'remove_from_doc': C(whole)}, heap=dict(w.heap)):
                    a, b, c = lists(it, st)
                    if k == 'return' and a is not None and b is not None:
                        n += 1
                        if a != left or b != alien + (left if whole else mine) or c is not None and c != alien:
                            fail('the section lists %s and the document %s afterwards' % (text(a), text(b)))
                return it, n

    for target, values in ((t, vs) for t in ('removed:2', 'removed:0', 'removed:1') for vs in (None, ['v'] * 4)):
        f = prog.func('terms', 'Term.remove_child')

        @job('delete', f, 'remove_child(the child %s%s)' % (target[8:], ' of equal ones' if values else ''))
        def g(cap, fail, f=f, target=target, values=values):
            w, kids = family(values)
            it = w.interp(cap)
            n = 0
            for st, k, v in it.run(f, {'child': kids[int(target[8:])]}, heap=dict(w.heap)):
                if k == 'return':
                    n += bool(judge_children(it, st, w, kids, target, NONE, '', fail, values=values))
            return it, n

    newc = prog.func('terms', 'Term.new_child')
    for name, value, kwargs in (('xb', C('new'), ()), ('zz', C(''), ()), ('zz', C(0), ()), ('zz', NONE, ()), ('xa', C('new'), (
            ('pa', C('1')), ('pb', C('2')))), ('Foo.zz', C('new'), ())):
        for f in (newc, gonc):
            if f is gonc and name != 'xa':
                continue

            @job('property', f, '%s(%r, %s%s)' % (f.name, name, show(value), ', properties' if kwargs else ''))
            def g(cap, fail, f=f, name=name, value=value, kwargs=kwargs):
                w, kids = family()
                it = w.interp(cap, kwargs=kwargs)
                n = 0
                for st, k, v in it.run(f, {'term': C(name), 'value': value}, heap=dict(w.heap)):
                    if k != 'return':
                        continue
                    done = judge_children(it, st, w, kids, None if f is newc else KIDS.index(name), value, name.rpartition('.')[2], fail)
                    n += bool(done)
                    if done and kwargs and v[0] in ('n', 'p'):
                        below = it.exact(st, st.heap.get((v, 'children'), TOP))
                        if below is not None:
                            have = [(cval(st.heap[(q, 'record_term')]).lower(), st.heap.get((q, 'value'))) for q in below
                                    if is_const(st.heap.get((q, 'record_term'), TOP))]
                            if [q for q, _ in have] != [q for q, _ in kwargs] or any(
                                    is_const(v1) and v1 != v2 for (_, v1), (_, v2) in zip(have, kwargs)):
                                fail('the properties of the child are %s' % [q for q, _ in have])
                return it, n

    gons = prog.func('doc', 'MetatabDoc.get_or_new_section')
    ddel = prog.func('doc', 'MetatabDoc.__delitem__')

    def shelf():
        w, mine, alien, other = book()
        w.heap = {(ME if k[0] == DOC else ('p', '@mine') if k[0] == ME else k[0],) + k[1:]: v for k, v in w.heap.items()}

        def swap(v):
            if v == ME:
                return ('p', '@mine')
            if v == DOC:
                return ME
            if isinstance(v, tuple):
                return tuple(swap(y) for y in v)
            if isinstance(v, frozenset):
                return frozenset(swap(y) for y in v)
            return v
        w.heap = {k: swap(v) for k, v in w.heap.items()}
        w.types = {swap(k): v for k, v in w.types.items()}
        w.names = {swap(k): v for k, v in w.names.items()}
        return w, mine, alien, other

    before = [('root', ('p', '@root')), ('other', ('p', '@other')), ('seca', ('p', '@mine'))]
    for name in ('seca', 'SECA', 'Other', 'new', 'sec', 'Root'):
        @job('section', gons, 'get_or_new_section(%r)' % name)
        def g(cap, fail, name=name):
            w, mine, alien, other = shelf()
            it = w.interp(cap)
            n = 0
            old = dict(before).get(name.lower())
            for st, k, v in it.run(gons, {'name': C(name), 'params': NONE}, heap=dict(w.heap)):
                got = elements(x('items', st.heap.get((ME, 'sections'), TOP)), st, it) if k == 'return' else None
                if got is None:
                    continue
                n += 1
                got = [(cval(e[1]), e[2]) for e in got]
                if got[:3] != before or len(got) != 3 + (old is None) or old is None and got[3][0] != name.lower():
                    fail('the sections are %s afterwards' % [e[0] for e in got])
                elif old is not None and v in [s for _, s in before] and v != old or old is None and v != got[3][1] and v[0] in ('p', 'n'):
                    fail('%s is returned' % show(v))
            return it, n

    for name in ('seca', 'SECA', 'Other', 'new', 'sec'):
        @job('delete', ddel, 'del doc[%r]' % name)
        def g(cap, fail, name=name):
            w, mine, alien, other = shelf()
            it = w.interp(cap)
            n = 0
            want = [e for e in before if e[0] != name.lower()]
            left = [t for t in alien + mine if not (name.lower() == 'other' and t in alien or name.lower() == 'seca' and t in mine)]
            for st, k, v in it.run(ddel, {'item': C(name)}, heap=dict(w.heap)):
                got = elements(x('items', st.heap.get((ME, 'sections'), TOP)), st, it) if k == 'return' else None
                ts = it.exact(st, st.heap.get((ME, 'terms'), TOP)) if k == 'return' else None
                if got is not None:
                    n += 1
                    if [(cval(e[1]), e[2]) for e in got] != want:
                        fail('the sections are %s afterwards' % [cval(e[1]) for e in got])
                if ts is not None and ts != left:
                    fail('the document lists %s afterwards, not %s' % (text(ts), text(left)))
            return it, n

    # ------------------------------------------------------------------------------------------ verdicts
    def decide(j, cap):
        rule, f, label, g = j
        current = []

        def fail(what):
            current[0].paths[-1][2].append(what)
        World.current = current
        it, n = g(cap, fail)
        bad = []
        ends = [p for p in it.paths if p[1] == 'return']
        if not ends and it.paths and not any((PATH, 'fuzzy') in p[0].heap for p in it.paths):
            bad.append('the edit raises an exception')
        # a path that was taken on a guess is only counted if all the others fail, too
        known = [p for p in ends if (PATH, 'fuzzy') not in p[0].heap]
        sure = [p for p in known if p[2] and (PATH, 'guess') not in p[0].heap]
        if not sure and ends and len(known) == len(ends) and all(p[2] for p in ends):
            sure = ends
        bad += [p[2][0] for p in sure]
        fs = [Finding(rule, where(f), f.qual, '%s: %s' % (label, what)) for what in bad[:1]]
        return pack(it, fs, [(rule, label)] if n else [], undecided=[] if n else [label])

    res = sweep(ck, jobs, decide, label=lambda j: j[2], caps=(128, 32))
    und = [u for r in res for u in r.get('undecided', ())]
    if und:
        ck.notes.append('%d of %d edits are not decided: %s' % (len(und), len(jobs), '; '.join(und[:10])))
