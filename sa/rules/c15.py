"""C15 Section and header settings do not leak across sections."""
from ..common import *

ELIDED = '<elided_term>'
# kind of row: (parent part, record part, column)
KINDS = {'section': ('root', 'section', 1), 'root': ('root', 'root', 1), 'header': ('root', 'header', 1),
         'row': ('root', 'foo', 1), 'child': ('foo', 'bar', 1), 'elided': (ELIDED, 'baz', 1),
         'same': (ELIDED, 'foo', 1), 'property': ('foo', None, 3),
         'include': ('root', 'include', 1), 'declare': ('root', 'declare', 1)}
ROOTKEYS = {'root', 'Root'}


def kind_of(T):
    return T[1][1:].split('#')[0]


def term_is_answer(kind, v):
    """The answer of term_is for a row of a kind, for a constant name."""
    p, r, c = KINDS[kind]
    full = p + '.' + (r or '<number>')
    names = [cval(v)] if is_const(v) else [cval(w) if is_const(w) else None for w in v[1:]] if v[0] == 't' else [None]
    if is_const(v) and not isinstance(cval(v), str):
        try:
            names = list(cval(v))
        except TypeError:
            return None
    if any(not isinstance(n, str) for n in names):
        return None
    for n in names:
        n = n.lower()
        if '.' not in n:
            n = 'root.' + n
        a, _, b = n.rpartition('.')
        if n == full or b == '*' and a in (p, '*') or a == '*' and b == r:
            return True
    return False


def leaks(v, ok):
    """Parts of a value that come from an earlier row: not of the given terms, and not declarations."""
    out = []

    def go(w):
        if not isinstance(w, tuple) or not w:
            return
        if w[0] == 'lv':
            out.append(w)
            return
        if w[0] == 'a' and w[1] == ('p', 'self') and w[2] not in STABLE:
            out.append(w)
            return
        if w[0] == 'p' and w[1].startswith('@') and w not in ok:
            out.append(w)
            return
        for y in w[1:]:
            if isinstance(y, tuple):
                go(y)
            elif isinstance(y, frozenset):
                for z in y:
                    go(z)

    go(v)
    return out


STABLE = {'_declared_terms', '_declared_sections', 'doc', '_doc', 'root', '_root', 'term_classes', 'resolver', 'errors',
          'synonyms', 'super_terms', '_ref', 'path', 'install_declares'}


def deep(it, st, v, depth=0, seen=()):
    """A value with the contents of the collections it is."""
    out = {v}
    if depth > 4 or v in seen:
        return out
    for m in members(v):
        out.add(m)
        if m[0] == 'n':
            for k, w in st.heap.items():
                if k[0] == m and isinstance(w, tuple):
                    ws = [w] if w and isinstance(w[0], str) and w[0] not in ('#',) else list(w)
                    for y in ws:
                        if isinstance(y, tuple):
                            out |= deep(it, st, y, depth + 1, seen + (v,))
        else:
            for y in walk(m):
                if y[0] == 'n' and y != m:
                    out |= deep(it, st, y, depth + 1, seen + (v,))
    return out


class Driver:
    """TermParser.__iter__ on a sequence of rows of given kinds, from the state after any rows at all, or from the start."""

    def __init__(self, prog, seq, cap, havoc=True, file_type=NONE):
        self.prog = prog
        self.els = [('p', '@%s#%d' % (k, i)) for i, k in enumerate(seq)]
        for i, k in enumerate(seq):
            if k == 'again':
                self.els[i] = [T for j, T in enumerate(self.els[:i]) if seq[j] == 'section'][-1]
        self.kinds = {T: k for T, k in zip(self.els, seq) if k != 'again'}
        els = self.els
        at = boundaries(prog, extra={'Term.add_child': 'any', 'SectionTerm.add_term': 'any',
                                     'TermParser.manage_declare_terms': 'any'})
        for q in ('Term.section', 'Term.section.setter'):
            at.pop(q, None)
        at['Term.term_is'] = self.term_is
        at['TermParser.generate_terms'] = lambda st, b, it: ('t',) + tuple(els)
        self.havocked = False

        def hv(s, it, itv, vals):
            if not any(e in els or e[0] == 't' and any(w in els for w in e[1:]) for e in vals):
                return False
            self.havocked = True
            return havoc

        def o(ev, st, it):
            if ev.kind in ('YIELD', 'LOOPSTART'):
                return True
            if ev.kind == 'CALL' and ev.args[0].split('.')[-1] in ('add_child', 'add_term'):
                return True

        self.it = Interp(prog, atoms=at, cap=cap, observers=[o], havoc=hv, attr_hook=self.attr, implicit=False)
        typeof = self.it.typeof
        truth = self.it.truth
        none = lambda v: v[0] == 'i' and v[1] == ('t',)         # there are no synonyms
        self.it.truth = lambda st, v: (False if self.other_name(v) or none(v) or v[0] == 'o' and v[1] == 'in' and v[2] == NONE else
                                       True if v[0] == 'o' and v[1] == 'isnone' and none(v[2]) else truth(st, v))
        self.it.typeof = lambda st, v: self.types(v) or typeof(st, v)
        self.heap = {}
        for T in els:
            p, r, c = KINDS[self.kinds[T]]
            self.heap[(T, 'parent_term')] = C(p)
            if r:
                self.heap[(T, 'record_term')] = C(r)
            self.heap[(T, 'col')] = C(c)
            self.heap[(T, 'file_type')] = file_type
            if self.kinds[T] == 'property':
                self.heap[(T, 'parent')] = [U for U in els[:els.index(T)] if self.kinds[U] in ('row', 'child', 'elided', 'same')][-1]
        self.heap[(('a', ('p', 'self'), 'root'), 'record_term')] = C('root')

    def types(self, v):
        k = self.kinds.get(v)
        return None if k is None else 'SectionTerm' if k in ('section', 'root') else 'Term'

    def term_is(self, st, b, it):
        T, v = b.get('self'), [w for k, w in b.items() if k != 'self'][0]
        if T in self.kinds:
            seq = it.exact(st, v)
            r = term_is_answer(self.kinds[T], ('t',) + tuple(seq) if seq is not None else v)
            if r is not None:
                return C(r)
        return x('Term.term_is', T, v)

    def attr(self, b, a, st, it):
        if b == ('p', 'self') and a == 'synonyms':
            return ('t',)
        if b not in self.kinds:
            return None
        k = self.kinds[b]
        if a == 'is_arg_child':
            return C(KINDS[k][2] > 1)
        if a not in ('join', 'join_lc', 'qualified_term', 'record_term_lc', 'parent_term_lc', 'has_elided_parent'):
            return None
        p, r = st.heap.get((b, 'parent_term')), st.heap.get((b, 'record_term'))
        pc = cval(p) if p is not None and is_const(p) else None
        rc = cval(r) if r is not None and is_const(r) else None
        if a == 'has_elided_parent':
            return C(pc == ELIDED) if pc is not None else FALSE
        if a == 'parent_term_lc':
            return C(pc.lower()) if pc is not None else None if p is not None and p[0] == 'lv' else ('a', b, a)
        if a == 'record_term_lc':
            return C(rc.lower()) if rc is not None else ('a', b, a)
        return C(pc + '.' + rc) if pc is not None and rc is not None else ('a', b, a)

    def run(self):
        f = self.prog.func('metatab.parser', 'TermParser.__iter__')
        outs = self.it.run(f, heap=self.heap)
        return [st for st, k, v in outs if k != 'raise' and not any(b and self.other_name(c) for c, b in st.conds.items())]

    def other_name(self, c):
        """The condition says that a property has the name of some row, or that a row has the name of a row of another kind."""
        if c[0] != 'o' or c[1] not in ('==', 'in'):
            return False
        for w in c[2:4]:
            if w[0] == 'a' and w[1] in self.kinds and w[2] in ('join', 'join_lc', 'qualified_term'):
                k = self.kinds[w[1]]
                for u in c[2:4]:
                    if (is_const(u) or u[0] == 't') and (k == 'property' or term_is_answer(k, u) is False):
                        return True
        return False

    def get(self, st, T, attr):
        vals = [v for s, v in self.it.load_attr(st.copy(), T, attr, None)]
        return phi(vals) if vals else TOP

    def parents(self, st, T):
        out = []
        for e in st.events:
            if e.kind == 'CALL' and e.args[0].split('.')[-1] == 'add_child':
                b = dict(e.args[1])
                if [w for k, w in e.args[1]][1:2] == [T]:
                    out.append((b.get('self'), e.where))
        return out

    def sections(self, st, T):
        return [(dict(e.args[1]).get('self'), e.where) for e in st.events if e.kind == 'CALL' and
                e.args[0].split('.')[-1] == 'add_term' and [w for k, w in e.args[1]][1:2] == [T]]


def is_root(v):
    """The root term, or what the table of terms has for the name of the root term."""
    if v == ('a', ('p', 'self'), 'root'):
        return True
    if v[0] == 'i' and v[1][0] == 'lv':
        return is_const(v[2]) and cval(v[2]) in ROOTKEYS
    return False


def place(f):
    return (f.module.path, f.qual, f.node.lineno)


NESTED = ('p', '@nested')


def restored(prog, ck):
    """What generate_terms yields after an include."""
    g = prog.func('metatab.parser', 'TermParser.generate_terms')
    if g is None or len(g.params) < 3:
        raise AnalysisError('there is no TermParser.generate_terms(self, ref, root)')
    ref, root = ('p', g.params[1]), ('p', g.params[2])
    S, H, W, I, D = 'section', 'header', 'row', 'include', 'declare'
    scenarios = [(I,), (D,), (S, I), (S, D), (S, H, I), (S, H, D), (H, I), (S, W, I), (S, H, W, I), (H, S, I), (S, S, I), (S, I, I),
                 (S, H, I, I), (S, D, I), (S, H, S, D)]

    def job(seq, cap):
        els = [('p', '@%s#%d' % (k, i)) for i, k in enumerate(seq)]
        at = boundaries(prog)
        calls = []

        def row_of(v):
            ks = [y if y in els else made[y] for y in walk(v) if y in els or y in made]
            return ks[0] if ks else None

        def term_is(st, b, it):
            T, v = b.get('self'), [w for k, w in b.items() if k != 'self'][0]
            r = row_of(T)
            if r is not None:
                vs = it.exact(st, v)
                a = term_is_answer(kind_of(r), ('t',) + tuple(vs) if vs is not None else v)
                if a is not None:
                    return C(a)
            if T == NESTED:
                return FALSE
            return x('Term.term_is', T, v)

        made = {}

        def o(ev, st, it):
            if ev.kind == 'NEW':
                r = [y for v in list(ev.args[2]) + [w for _, w in (ev.args[3] if isinstance(ev.args[3], tuple) else
                                                                  ev.args[3].items())] for y in walk(v) if y in els]
                if r:
                    made[ev.args[0]] = r[0]
            if ev.kind == 'YIELD':
                return True
            if ev.kind == 'CALL' and ev.args[0] == g.qual:
                return True

        at['Term.term_is'] = term_is
        at[g.qual] = lambda st, b, it: ('t', NESTED)
        it = Interp(prog, atoms=at, cap=cap, observers=[o], opaque=('Term', 'SectionTerm', 'RootSectionTerm'))
        seen = []

        def rows(v, st, it_):
            if v == ref or v[0] == 'x' and ref in walk(v) and v[1].split('.')[-1] == 'get_generator':
                seen.append(v)
                return els
            return None

        it.iter_hook = rows
        conds = {}
        for R in els:
            cell = ('i', R, C(0))
            conds.update({R: True, cell: True, op('strip', cell): True, op('startswith', op('strip', cell), C('#')): False})
        outs = it.run(g, conds=conds)
        findings, obs = [], []
        n = 0
        for st, kind, v in outs:
            if kind == 'raise':
                continue
            if any(b is False and (k == root or k in made or k[0] == 'x' and row_of(k) and k[1].startswith('MetatabDoc.')) for k, b in st.conds.items()):
                continue        # terms are true
            # the terms of each row, and what follows the terms of an included document
            evs = [e for e in st.events if e.kind in ('YIELD', 'CALL')]
            sec, head = {root}, set()
            state = []
            pos = 0
            ok = True
            own = {}
            i = -1
            after = None
            problems = []
            for e in evs:
                if e.kind == 'CALL':
                    b = [w for k, w in e.args[1]][2:]
                    call = (e, b)
                    k = seq[i] if i >= 0 else None
                    obs.append(('passed-on', '%s: %s' % (', '.join(seq), i)))
                    if not any(w in sec for w in b):
                        problems.append(Finding('passed-on', e.where, 'section', 'after the rows: %s, the included document '
                                                'starts with %s, not with the section in force' % (', '.join(seq[:i + 1]),
                                                                                            show(b[0])[:60] if b else 'nothing')))
                    if head and not any(w in head for w in b):
                        problems.append(Finding('passed-on', e.where, 'header', 'after the rows: %s, the included document '
                                                'starts without the header in force' % ', '.join(seq[:i + 1])))
                    if started(seq, i) and not head:
                        for w in b[1:]:
                            if any(y in els and kind_of(y) == 'header' for y in walk(w)) or w in made and kind_of(made[w]) == 'header':
                                problems.append(Finding('passed-on', e.where, 'header', 'after the rows: %s, the included '
                                                        'document starts with the header of another section' % ', '.join(
                                                            seq[:i + 1])))
                    continue
                w = e.args[0]
                if w == NESTED:
                    if after is not None and not after:
                        continue        # passed on from a helper that generates them
                    after = []
                    if i >= 0:
                        state.append((i, after, set(sec), set(head), e.where))
                    continue
                r = row_of(w)
                j = els.index(r) if r is not None else None
                if j is not None and j == i + 1 and (after is None or j > i):
                    i, after = j, None
                    if seq[j] == 'section':
                        sec, head = {w}, set()
                    elif seq[j] == 'header':
                        head = {w}
                elif after is not None:
                    after.append(w)
            if i != len(seq) - 1:
                continue        # rows that are skipped
            n += 1
            findings += problems
            for i, after, sec, head, where in state:
                obs.append(('restored', '%s: %s' % (', '.join(seq), i)))
                rows_ = ', '.join(seq[:i + 1])
                s_at = [j for j, w in enumerate(after) if w in sec]
                h_at = [j for j, w in enumerate(after) if w in head]
                if not s_at:
                    findings.append(Finding('restored', where, 'section', 'after the rows: %s, the section in force before the '
                                            'include is not in force again (%s)' % (rows_, ', '.join(show(w)[:40] for w in after))))
                elif head and (not h_at or h_at[-1] < s_at[-1]):
                    findings.append(Finding('restored', where, 'header', 'after the rows: %s, the header in force before the '
                                            'include is not in force again' % rows_))
                for j, w in enumerate(after):
                    if s_at and w not in sec and w not in head and not (w[0] == 'p' and w != root and not started(seq, i)):
                        findings.append(Finding('restored', where, 'other', 'after the rows: %s, an include is followed by %s' % (
                            rows_, show(w)[:60])))
        if not n or not seen:
            raise AnalysisError('TermParser.generate_terms: no path over the rows %s' % (seq,))
        return pack(it, findings, obs)

    sweep(ck, scenarios, job, label=lambda i: ','.join(i))


def started(seq, i):
    return any(k in ('section', 'header') for k in seq[:i])


def run(prog, ck, thorough):
    ck.rule('columns', 'the columns of a property are those of the section or header row before it', 4)
    ck.rule('value-name', 'the value name of a term comes from its declaration or from the section or header row before it', 4)
    ck.rule('section', 'a row term is in the section whose row came last', 4)
    ck.rule('parent', 'a property is a child of the term of its row, and a term with an elided parent of the last row term of the same '
                      'section that names its parent', 4)
    ck.rule('named', 'a property has the name of its own column, in lower case, or the number of a column without a name', 0)
    ck.rule('restored', 'after an include the section and header that were in force before it are passed to the parser again', 4)
    ck.rule('passed-on', 'the included document starts with the section and header in force', 2)
    f = prog.func('metatab.parser', 'TermParser.__iter__')
    if f is None:
        raise AnalysisError('there is no TermParser.__iter__')

    S, R, H, W, CH, E, P, A, X = 'section', 'root', 'header', 'row', 'child', 'elided', 'property', 'again', 'same'
    scenarios = [(seq, hv, ft) for hv in (True, False) for ft in (NONE, C('declare')) for seq in (
        (S, W, P), (S, E), (R, W, P), (R, E), (S, H, W, P), (H, W, P), (H, S, W, P), (H, R, W, P), (W, P), (W, E), (W, CH, E),
        (W, CH, P), (S, W, E), (W, S, E), (W, R, E), (W, P, E), (S, W, P, P), (W, CH, S, E), (W, CH, S, W, P),
        (W, E, P), (S, W, E, P), (W, CH, E, P), (W, E, P, E), (S, H, A, W, P), (S, H, W, A, W, P), (S, H, A, H, W, P),
        (S, W, A, E), (W, X, E), (W, X, P), (W, X, CH), (S, W, X, E, P))]

    def job(item, cap):
        seq, hv, ft = item
        d = Driver(prog, seq, cap, hv, ft)
        states = d.run()
        findings, obs = [], []
        if not d.havocked or not states:
            raise AnalysisError('TermParser.__iter__ does not run over the terms that generate_terms yields')
        els = d.els
        label = ', '.join({A: 'the same section again', X: 'elided of the same name'}.get(k, k) for k in seq) + (' at the start' if not hv else '') + (' of a declaration' if ft != NONE else '')
        seq = tuple({A: S, X: E}.get(k, k) for k in seq)
        for st in states:
            for i, T in enumerate(els):
                k = seq[i]
                if k not in (W, CH, E, P):
                    continue
                start = max([j for j in range(i) if seq[j] in (S, R)], default=None)
                head = max([j for j in range(i) if seq[j] == H and (start is None or j > start)], default=None)
                own = set(els[start if start is not None else 0:])
                sec = els[start] if start is not None else None
                cols = els[head] if head is not None else sec
                vals_ok = own if start is not None else set(els)
                fresh = start is not None or not hv
                desc = 'a %s after the rows: %s' % (k, label)
                # section
                v = d.get(st, T, 'section')
                obs.append(('section', desc))
                if sec is not None and v != sec:
                    findings.append(Finding('section', place(f), k, '%s is in section %s' % (desc, show(v)[:80])))
                elif sec is None and not hv and v != ('a', ('p', 'self'), 'root'):
                    findings.append(Finding('section', place(f), k, '%s is in section %s' % (desc, show(v)[:80])))
                elif sec is None and hv and v[0] != 'lv' and not (v[0] == 'a' and v[1] == ('p', 'self')):
                    findings.append(Finding('section', place(f), k, '%s is in section %s' % (desc, show(v)[:80])))
                for w, wh in d.sections(st, T):
                    obs.append(('section', desc + ' added'))
                    if w != v:
                        findings.append(Finding('section', wh, k, '%s is added to section %s, but has section %s' % (
                            desc, show(w)[:80], show(v)[:80])))
                if k == W and not d.sections(st, T):
                    findings.append(Finding('section', place(f), k, '%s is not added to any section' % desc))
                # value name
                v = d.get(st, T, 'term_value_name')
                obs.append(('value-name', desc))
                allv = deep(d.it, st, v)
                bad = [y for u in allv for y in leaks(u, {T} | ({cols} if cols is not None else set()))]
                if fresh or head is not None:
                    if bad:
                        findings.append(Finding('value-name', place(f), k, '%s: its value name depends on an earlier row: %s' % (
                            desc, show(bad[0])[:80])))
                elif not any(y[0] == 'lv' or y[0] == 'a' and y[1] == ('p', 'self') for u in allv for y in walk(u)):
                    findings.append(Finding('value-name', place(f), k, '%s: its value name does not depend on the section in '
                                            'force' % desc))
                if head is not None and not any(y == ('a', cols, 'value') for u in allv for y in walk(u)):
                    findings.append(Finding('value-name', place(f), k, '%s: its value name does not come from the header' % desc))
                # columns
                if k == P:
                    v = d.get(st, T, 'record_term')
                    obs.append(('columns', desc))
                    allv = deep(d.it, st, v)
                    bad = [y for u in allv for y in leaks(u, {T} | ({cols} if cols is not None else set()))]
                    if start is not None or head is not None:
                        if bad:
                            findings.append(Finding('columns', place(f), k, '%s: its name comes from an earlier row: %s' % (
                                desc, show(bad[0])[:80])))
                        elif cols is not None and not any(y[0] == 'a' and y[1] == cols and y[2] in (
                                'args', 'property_names', 'header_args') for u in allv for y in walk(u)):
                            findings.append(Finding('columns', place(f), k, '%s: its name (%s) does not come from the columns in '
                                                    'force' % (desc, show(v)[:80])))
                    elif not bad:
                        findings.append(Finding('columns', place(f), k, '%s: its name (%s) does not come from the columns in '
                                                'force' % (desc, show(v)[:80])))
                # parent
                last = max([j for j in range(i) if seq[j] in (W, CH) and (start is None or j > start)], default=None)
                ps = d.parents(st, T)
                obs.append(('parent', desc))
                if not ps:
                    findings.append(Finding('parent', place(f), k, '%s is not added to any term' % desc))
                for w, wh in ps:
                    if k == W:
                        good = is_root(w)
                    elif k == CH:
                        good = w == els[max(j for j in range(i) if seq[j] == W)]
                    elif k == P:
                        good = w == els[max(j for j in range(i) if seq[j] in (W, CH, E))]
                    elif last is not None:
                        good = w == els[last]
                    elif start is not None or not hv:
                        good = is_root(w)
                    else:
                        good = True
                    if not good:
                        findings.append(Finding('parent', wh, k, '%s is a child of %s' % (desc, show(w)[:80])))
        return pack(d.it, findings, obs)

    sweep(ck, scenarios, job, label=lambda i: '%s/%s' % (','.join(i[0]), i[1]))
    restored(prog, ck)

    # ---- the name of each column
    COLS = ['Aa', '', 'Bb', 'cc']
    heads = (S, H, R)
    named = [(seq, n) for seq in ((S, W, P), (S, H, W, P), (H, W, P), (S, H, S, W, P), (R, W, P), (S, W, E, P)) for n in range(5)]

    def named_job(item, cap):
        seq, n = item
        d = Driver(prog, seq, cap, False)
        d.it.precise = d.it.exact_comp = d.it.seqs = True
        last = max(i for i, k in enumerate(seq) if k in heads)
        for i, T in enumerate(d.els):
            if seq[i] in heads:
                cols = [C(c) for c in (COLS if i == last else ['zz'] * 5)]
                L = ('n', 'list', '@columns%d' % i)
                d.heap[(L, '#seq')] = ('t',) + tuple(cols)
                d.heap[(L, '[]')] = phi(cols)
                d.heap[(T, 'args')] = L
        T = d.els[-1]
        d.heap[(T, 'record_term')] = C(str(n))
        want = COLS[n].lower() if n < len(COLS) and COLS[n] else str(n)
        findings, obs = [], []
        label = 'column %d of %s after the rows: %s' % (n, COLS, ', '.join(seq))
        got = []
        for st in d.run():
            v = d.get(st, T, 'record_term')
            if not is_const(v) or (('u', 'path'), 'fuzzy') in st.heap:
                return pack(d.it, [], [])
            got.append(str(cval(v)))
        if got:
            obs.append(('named', label))
        if got and all(g.strip().lower() != want for g in got):
            findings.append(Finding('named', place(f), 'property', '%s: the property is named %r, not %r' % (label, got[0], want)))
        return pack(d.it, findings, obs)

    sweep(ck, named, named_job, label=lambda i: '%s/%d' % (','.join(i[0]), i[1]))
