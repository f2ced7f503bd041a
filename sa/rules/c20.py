"""C20 Declarations take effect immediately and completely."""
import ast

from ..common import *
from ..total import expand, partial_iter
from . import c15

TABLES = {'_declared_terms', '_declared_sections', 'decl_terms', 'decl_sections', 'super_terms', 'derived_terms', 'term_classes',
          'declared_terms', 'declared_sections'}
SELF = ('p', 'self')
COPIES = {'dict', 'copy', '.copy', 'copy.copy', 'items', 'list', 'OrderedDict', 'collections.OrderedDict', 'deepcopy',
          'copy.deepcopy', 'tuple'}
MEMO = {'lru_cache', 'cache', 'cached_property', 'memoize', 'memoized', 'memoize_method'}
EV = {'KEY', 'MUT', 'STORE', 'XCALL', 'ITER', 'ITEREND', 'ITERNONE', 'BREAK', 'CALL', 'EMIT', 'ITERATE', 'COND', 'HANDLER', 'NEW',
      'GENVAL', 'LOOPRETURN', 'YIELD'}
DRAIN = {'list', 'tuple', 'set', 'len', 'sum', 'deque', 'collections.deque', 'sorted', 'frozenset', 'dict', 'extend', 'min', 'max'}


def strip(v):
    while v[0] == 'x' and v[1] in COPIES and len(v[2]) >= 1 or v[0] == 'o' and v[1] in COPIES and len(v) > 2:
        v = v[2][0] if v[0] == 'x' else v[2]
    return v


def contents(st, v, seen=None):
    """v and what the containers in it hold, not what objects refer to."""
    seen = set() if seen is None else seen
    for w in walk(v):
        if w in seen:
            continue
        seen.add(w)
        yield w
        if w[0] == 'n' and w[1] in ('list', 'dict', 'set', 'tuple', 'OrderedDict', 'defaultdict', 'frozenset'):
            for k, val in list(st.heap.items()):
                if k[0] == w and isinstance(val, tuple):
                    yield from contents(st, val, seen)


def over(v, T):
    """v is T, or goes over all of T."""
    while v[0] == 'x' and v[1].split('.')[-1] in ('iter', 'list', 'tuple', 'enumerate', 'reversed', 'chain', 'zip') and v[2]:
        if v == T:
            return True
        v = next((w for w in v[2] if T in list(walk(w))), v[2][0])
    while v[0] == 'o' and v[1] in ('enumerate', 'iter', 'reversed', 'list') and len(v) > 2 and v != T:
        v = v[2]
    return v == T


def origins(it, st, v):
    """The subvalues of v, and of what the loops that fill the collections in it go over."""
    out = list(expand(it, st, v))
    made = {w for w in out if w[0] == 'n'}
    evs = list(st.events)
    for i, e in enumerate(evs):
        if e.kind in ('ITER', 'ITERNONE') and made:
            body = evs[i:span(evs, i)]
            if e.kind == 'ITERNONE' and e.args[0][0] != 'n' or any(g.kind in ('EMIT', 'MUT') and g.args[0] in made for g in body):
                out.extend(expand(it, st, e.args[0]))
    return out


def own_key(c, b, els):
    """The key is one that every declaration has anyway."""
    if c[0] != 'o' or c[1] not in ('in', '==', 'not in', '!=') or b != (c[1] in ('in', '==')) or len(c) < 4 or c[2] not in els:
        return False
    try:
        vs = [cval(c[3])] if is_const(c[3]) and isinstance(cval(c[3]), str) else list(cval(c[3])) if is_const(c[3]) else [
            cval(w) for w in c[3][1:] if is_const(w)] if c[3][0] == 't' else [None]
    except TypeError:
        return False
    return bool(vs) and set(vs) <= {'values', 'term'}


def conds_of(st):
    return list(st.conds.items()) + [(e.args[0], e.args[1]) for e in st.events if e.kind == 'COND']


def span(evs, i):
    """Index after the end of the iteration that starts at i."""
    for j in range(i + 1, len(evs)):
        if evs[j].kind == 'ITEREND' and evs[j].args[:2] == evs[i].args[:2]:
            return j
    return len(evs)


def flows(it, st, v, is_src):
    """'all' if v has everything of the source, 'part' if it may have less, None if it does not come from it."""
    worst = None
    for m in members(v):
        m = strip(m)
        if is_src(m):
            r = 'all'
        elif m[0] == 'n':
            r = None
            evs = list(st.events)
            for i, e in enumerate(evs):
                if e.kind == 'ITERNONE' and any(is_src(w) for w in walk(e.args[0])):
                    r = r or 'all'
                if e.kind == 'ITER' and any(is_src(w) for w in walk(e.args[0])):
                    if partial_iter(e.args[0], st):
                        r = 'part'
                        continue
                    body = evs[i + 1:span(evs, i)]
                    hit = any(g.kind == 'EMIT' and g.args[0] == m or g.kind == 'MUT' and g.args[0] == m and
                              g.args[1] in ('__setitem__', 'add', 'append', 'update') for g in body)
                    r = r if r == 'part' else 'all' if hit else 'part'
            if r is None and any(is_src(w) for w in expand(it, st, m)):
                r = 'all'
        elif any(is_src(w) for w in walk(m)) and m[0] == 'o' and m[1] in ('|', 'BitOr', '#concat'):
            r = 'all'
        else:
            r = None
        if worst is None or r == 'part':
            worst = r
    return worst


def is_table(st, b, owner, name):
    if b == ('a', owner, name):
        return True
    w = st.heap.get((owner, name))
    return w is not None and b == w


def published(it, st, owner, table, is_src, start=0):
    """How a path adds the source to a table of the owner after event `start`."""
    evs = list(st.events)
    out = None
    where = None
    for i, e in enumerate(evs):
        if i < start:
            continue
        r = None
        if e.kind == 'MUT' and is_table(st, e.args[0], owner, table):
            vals = e.args[3] if len(e.args) > 3 else ()
            if e.args[1] == 'update' and vals:
                r = flows(it, st, vals[0], is_src)
            elif e.args[1] == '__setitem__':
                for j, g in enumerate(evs[:i]):
                    if g.kind == 'ITER' and any(is_src(w) for w in walk(g.args[0])) and span(evs, j) > i:
                        r = 'part' if partial_iter(g.args[0], st) else 'all'
            elif e.args[1] in ('__ior__', '|='):
                r = flows(it, st, vals[0], is_src) if vals else None
        elif e.kind == 'STORE' and e.args[0] == owner and e.args[1] == table:
            r = flows(it, st, e.args[2], is_src)
        elif e.kind == 'ITERNONE' and any(is_src(w) for w in walk(e.args[0])):
            r = 'none'
        if r is not None:
            where = e.where
            if out in (None, 'none', 'part') or r == 'part':
                out = r if out != 'all' else out
    return out, where


def run(prog, ck, thorough):
    ck.rule('routed', 'each row of a declaration document reaches the declaration tables', 2)
    ck.rule('declared', 'each DeclareTerm and DeclareSection row is put in the declaration tables, replacing an earlier declaration', 2)
    ck.rule('kept', 'an inherited child is made without changing the declaration that it is made from', 0)
    ck.rule('nested-type', 'what a declare row names, and what that includes, is read as declarations; other includes are not', 3)
    ck.rule('looked-up', 'the value name and property type of a row are looked up in the current declarations by its final name', 4)
    ck.rule('synonyms', 'a row is renamed by the synonyms declared before it, before its declaration is looked up', 2)
    ck.rule('columns', 'a section without columns gets the declared columns', 1)
    ck.rule('published', 'loading adds everything that the parser knows to the tables of the document, after reading all rows', 4)
    ck.rule('derived', 'derived terms are computed from all super terms after these are complete', 2)
    ck.rule('seeded', 'a new parser starts with the declarations of its document', 2)
    ck.rule('given', 'the declarations given to the constructor are read before the document', 2)
    ck.rule('complete', 'views of the declaration tables contain every declaration', 2)
    ck.rule('stale', 'a result that is kept and depends on declarations is dropped when they change', 0)
    ck.rule('used', 'the document looks declarations up in its tables', 2)
    P = 'metatab.parser'

    def need(m, q):
        f = prog.func(m, q)
        if f is None:
            raise AnalysisError('there is no %s' % q)
        return f

    def interp(cap, inline=(), extra=None, **kw):
        return Interp(prog, atoms=boundaries(prog, inline=inline, extra=extra), cap=cap,
                      observers=[lambda e, st, it: e.kind in EV], comp_paths=True, merge_calls=False, **kw)

    jobs = []

    def job(item, cap):
        return item[1](cap)

    # ---- rows of declaration documents, and lookups
    fi = need(P, 'TermParser.__iter__')
    seqs = [('row',), ('child',), ('elided',), ('row', 'property'), ('section', 'row'), ('row', 'elided'), ('row', 'row'),
            ('row', 'elided', 'property'), ('header', 'row')]
    seqs = [('row',) + s if s[0] == 'child' else s for s in seqs]

    class Syn(c15.Driver):
        """A driver that gives out another table of synonyms after each declaration."""
        version = 0

        def attr(self, b, a, st, it):
            if b == SELF and a == 'synonyms':
                n = sum(1 for e in st.events if e.kind == 'CALL' and e.args[0].split('.')[-1] == 'manage_declare_terms')
                return ('p', '@@syn%d' % n)
            return super().attr(b, a, st, it)

    def rows_job(seq, ft, hv):
        def go(cap):
            d = (Syn if len(seq) < 3 else c15.Driver)(prog, seq, cap, hv, ft)
            d.it.atoms.pop('TermParser.substitute_synonym', None)
            d.it.observers = [lambda e, st, it: e.kind in ('YIELD', 'LOOPSTART', 'CALL', 'KEY', 'STORE', 'COND', 'CMP')]
            states = d.run()
            if not states:
                raise AnalysisError('TermParser.__iter__ does not run over the terms that generate_terms yields')
            findings, obs = [], []
            label = 'the rows: %s%s%s' % (', '.join(seq), '' if hv else ' at the start', ' of a declaration' if ft != NONE else '')

            for st in states:
                evs = list(st.events)
                managed = {}
                for i, e in enumerate(evs):
                    if e.kind == 'CALL' and e.args[0].split('.')[-1] == 'manage_declare_terms':
                        for k, w in e.args[1][1:]:
                            managed.setdefault(w, i)
                for i, T in enumerate(d.els):
                    k = seq[i]
                    if k not in ('row', 'child', 'elided', 'property'):
                        continue
                    if ft != NONE:
                        obs.append(('routed', '%s of %s' % (k, label)))
                        if T not in managed:
                            findings.append(Finding('routed', c15.place(fi), k, 'after %s, the %s is not read as a declaration'
                                                    % (label, k)))
                    # synonyms
                    want = ('p', '@@syn%d' % sum(1 for U, j in managed.items() if U in d.els[:i]))
                    uses = [(j, e) for j, e in enumerate(evs) if e.kind == 'KEY' and e.args[0][0] == 'p' and
                            e.args[0][1].startswith('@@syn') and T in list(walk(e.args[1])) or
                            e.kind == 'KEY' and e.args[0][0] == 'p' and e.args[0][1].startswith('@@syn') and is_const(e.args[1]) and
                            k != 'property' and cval(e.args[1]) == '%s.%s' % c15.KINDS[k][:2]]
                    if uses:
                        obs.append(('synonyms', '%s of %s' % (k, label)))
                        old = [e for j, e in uses if e.args[0] != want and not any(f.args[0] == want for _, f in uses)]
                        if old:
                            findings.append(Finding('synonyms', old[0].where, k, 'after %s, the %s is renamed by synonyms from '
                                                    'before the last declaration' % (label, k)))
                    elif k == 'row' and len(seq) < 3:
                        findings.append(Finding('synonyms', c15.place(fi), k, 'after %s, the %s is not looked up in the synonyms'
                                                % (label, k)))
                    # lookups by the final name
                    stores = [j for j, e in enumerate(evs) if e.kind == 'STORE' and e.args[0] == T and e.args[1] in (
                        'parent_term', 'record_term')]
                    keys = [(j, e) for j, e in enumerate(evs) if e.kind == 'KEY' and e.args[0] == ('a', SELF, '_declared_terms')
                            and e.args[2] in ('get', 'load', 'in')]
                    for attr, prop in (('term_value_name', 'termvaluename'), ('child_property_type', 'childpropertytype')):
                        sets = [j for j, e in enumerate(evs) if e.kind == 'STORE' and e.args[0] == T and e.args[1] == attr]
                        obs.append(('looked-up', '%s of the %s of %s' % (attr, k, label)))
                        if not sets:
                            findings.append(Finding('looked-up', c15.place(fi), attr, 'after %s, the %s does not get its %s' % (
                                label, k, attr)))
                            continue
                        v = evs[sets[-1]].args[2]
                        near = [j for j, e in keys if j < sets[-1]]
                        props = [j for j, e in enumerate(evs) if e.kind == 'KEY' and e.args[1] == C(prop) and j < sets[-1]]
                        if not near or not props:
                            findings.append(Finding('looked-up', evs[sets[-1]].where, attr, 'after %s, the %s of the %s is not '
                                                    'looked up in the declarations' % (label, attr, k)))
                            continue
                        last = max(j for j in near if j <= max(props))if any(j <= max(props) for j in near) else near[-1]
                        wrong = None
                        for w in walk(v):
                            if w[0] != 'i' or w[2] != C(prop):
                                continue
                            if w[1][0] == 'n':
                                continue
                            if w[1][0] != 'i' or w[1][1] != ('a', SELF, '_declared_terms'):
                                if w[1][0] in ('i', 'lv') and any(y[0] in ('lv', 'n', 'x', 'o') for y in walk(
                                        w[1][1] if w[1][0] == 'i' else w[1])):
                                    wrong = 'does not come from the current declarations'
                                continue
                            key = w[1][2]
                            for nm in ('parent_term', 'record_term'):
                                ss = [e.args[2] for j, e in enumerate(evs) if j < sets[-1] and e.kind == 'STORE' and e.args[0] == T and
                                      e.args[1] == nm]
                                if ss and is_const(key) and not is_const(ss[-1]) and len(members(ss[-1])) == 1 and ss[-1][0] in 'xoi':
                                    wrong = 'is looked up by a name that is not the final one'
                        if wrong:
                            findings.append(Finding('looked-up', evs[sets[-1]].where, attr, 'after %s, the %s of the %s %s' % (
                                label, attr, k, wrong)))
                        if any(j > last for j in stores):
                            findings.append(Finding('looked-up', evs[sets[-1]].where, attr, 'after %s, the %s of the %s is looked '
                                                    'up before the name of the term is final' % (label, attr, k)))
                        before = [managed[U] for U in d.els[:i] if U in managed]
                        if before and last < max(before):
                            findings.append(Finding('looked-up', evs[sets[-1]].where, attr, 'after %s, the %s of the %s comes from '
                                                    'before the last declaration' % (label, attr, k)))
            return pack(d.it, findings, obs)
        return go

    for seq in seqs:
        for ft in (NONE, C('declare')):
            for hv in (True, False):
                jobs.append(('rows %s' % (seq,), rows_job(seq, ft, hv)))

    # ---- adding declarations
    fm = need(P, 'TermParser.manage_declare_terms')
    t = ('p', fm.params[1])

    def manage_job(kind):
        def go(cap):
            def term_is(st, b, it):
                T, v = b.get('self'), [w for k, w in b.items() if k != 'self'][0]
                if T == t:
                    seq = it.exact(st, v)
                    vs = seq if seq is not None else [v]
                    if all(is_const(w) and isinstance(cval(w), str) for w in vs):
                        full = {'root.' + kind, kind, '*.' + kind, 'root.*', '*.*'}
                        return C(any(cval(w).lower() in full for w in vs))
                return x('Term.term_is', T, v)

            def attr(b, a, st, it):
                if b == t and a in ('join', 'join_lc', 'qualified_term'):
                    return C('root.' + kind)
                if b == t and a in ('record_term', 'record_term_lc'):
                    return C(kind)
                if b == t and a in ('parent_term', 'parent_term_lc'):
                    return C('root')

            inl = ['TermParser.add_declared_term', 'TermParser.add_declared_section', 'TermParser.add_value_set_value',
                   'TermParser.declared_terms', 'TermParser.declared_sections']
            it = interp(cap, inl, {'Term.term_is': term_is}, attr_hook=attr)
            findings, obs = [], []
            table = '_declared_terms' if kind == 'declareterm' else '_declared_sections'
            what = 'Term.arg_props' if kind == 'declareterm' else 'args'

            def is_val(w):
                return w[0] in 'x' and w[1] == what or w[0] == 'a' and w[1] == t and w[2] in (what, 'arg_props', 'args')

            inherits = False
            n = 0
            for st, k, v in it.run(fm):
                evs = list(st.events)
                loops = [e for e in evs if e.kind in ('ITER', 'ITERNONE') and any(
                    w[0] == 'x' and w[1] == 'TermParser.inherited_children' for w in walk(e.args[0]))]
                if loops or any(e.kind == 'CALL' and e.args[0] == 'TermParser.inherited_children' for e in evs):
                    inherits = True
                for e in loops:
                    if e.kind == 'ITER':
                        i = evs.index(e)
                        if partial_iter(e.args[0], st) or not any(
                                g.kind == 'MUT' and g.args[0] == ('a', SELF, '_declared_terms') and g.args[1] in ('__setitem__', 'update')
                                for g in evs[i:span(evs, i)]):
                            findings.append(Finding('declared', e.where, 'inherited', 'an inherited child is not declared'))
                if k == 'raise':
                    continue
                n += 1
                obs.append(('declared', 'a path of %s' % kind))
                ws = [(i, e) for i, e in enumerate(evs) if e.kind == 'MUT' and e.args[0] == ('a', SELF, table) and
                      e.args[1] in ('__setitem__', 'update') and ('a', t, 'value') in [
                          y for a in e.args[3] for w in members(a) for y in expand(it, st, w)]]
                if not ws:
                    findings.append(Finding('declared', (fm.module.path, fm.qual, fm.node.lineno), kind, 'a %s row may not be put '
                                            'in %s' % (kind, table)))
                    continue
                val = ws[0][1].args[3][-1]
                # everything that the row says
                src = [e for e in evs if e.kind in ('ITER', 'ITERNONE') and any(is_val(w) for w in walk(e.args[0]))]
                if not any(is_val(w) for w in expand(it, st, val)) and not any(e.kind == 'ITERNONE' for e in src) and not src:
                    findings.append(Finding('declared', ws[0][1].where, kind + ' value', 'the declaration of a %s row does not have '
                                            'what the row says' % kind))
                cs = conds_of(st)
                for e in src:
                    if e.kind != 'ITER':
                        continue
                    i = evs.index(e)
                    body = evs[i:span(evs, i)]
                    if partial_iter(e.args[0], st):
                        findings.append(Finding('declared', e.where, kind + ' part', 'only a part of what a %s row says is declared' % kind))
                    elif not any(g.kind == 'EMIT' or g.kind == 'MUT' for g in body):
                        els = [w for w in walk(e.args[1]) if w[0] in ('e', 'k', 'i')]
                        if not any(not b and any(w in list(walk(c)) for w in els) and
                                   (c in els or c[0] == 'o' and c[1] == 'strip' or c[0] == 'x' and c[1].split('.')[-1] == 'strip')
                                   for c, b in cs) and not any(own_key(c, b, els) for c, b in cs):
                            findings.append(Finding('declared', e.where, kind + ' part', 'a cell of a %s row that is not blank may not '
                                                    'be declared' % kind))
            if not n:
                raise AnalysisError('manage_declare_terms never returns for a %s row' % kind)
            if kind == 'declareterm' and not inherits:
                findings.append(Finding('declared', (fm.module.path, fm.qual, fm.node.lineno), 'inherited', 'the children that a '
                                        'declared term inherits are not declared'))
            return pack(it, findings, obs)
        return go

    fi = prog.func(P, 'TermParser.inherited_children')

    def inherited_job(cap):
        it = interp(cap, [], {})
        findings, obs = [], []
        for st, k, v in it.run(fi):
            obs.append(('kept', 'a path of inherited_children'))
            for e in st.events:
                if e.kind == 'MUT' and e.args[0][0] == 'i' and e.args[1] in ('__setitem__', '__delitem__', 'update', 'pop', 'clear') and any(
                        w[0] == 'a' and w[1] == SELF and w[2] == '_declared_terms' for w in walk(e.args[0])):
                    findings.append(Finding('kept', e.where, 'inherited', 'making an inherited child changes the declaration that it '
                                            'is made from'))
        return pack(it, findings, obs)

    if fi is not None:
        jobs.append(('inherited', inherited_job))

    for kind in ('declareterm', 'declaresection'):
        jobs.append(('manage ' + kind, manage_job(kind)))

    # ---- nested documents and sections
    g = need(P, 'TermParser.generate_terms')

    def gen_job(kind, ftype):
        def go(cap):
            el = ('p', '@%s#0' % kind)
            made = {}
            ref = ('p', g.params[1])

            def term_is(st, b, it):
                T, v = b.get('self'), [w for k, w in b.items() if k != 'self'][0]
                if T in made:
                    vs = it.exact(st, v)
                    a = c15.term_is_answer(kind, ('t',) + tuple(vs) if vs is not None else v)
                    if a is not None:
                        return C(a)
                return x('Term.term_is', T, v)

            def attr(b, a, st, it):
                if b in made:
                    if a in ('join', 'join_lc', 'qualified_term'):
                        return C('root.' + kind)
                    if a in ('record_term', 'record_term_lc'):
                        return C(kind)
                    if a in ('parent_term', 'parent_term_lc'):
                        return C('root')

            def o(ev, st, it):
                if ev.kind == 'NEW' and any(y == el for v in list(ev.args[2]) + [w for _, w in (
                        ev.args[3] if isinstance(ev.args[3], tuple) else ev.args[3].items())] for y in walk(v)):
                    made[ev.args[0]] = el
                return ev.kind in EV

            at = boundaries(prog)
            at['Term.term_is'] = term_is
            at[g.qual] = lambda st, b, it: ('t', ('p', '@nested'))
            it = Interp(prog, atoms=at, cap=cap, observers=[o], opaque=('Term', 'SectionTerm', 'RootSectionTerm'), attr_hook=attr)
            it.iter_hook = lambda v, st, i_: [el] if v == ref or v[0] == 'x' and ref in walk(v) and v[1].split('.')[-1] == \
                'get_generator' else None
            cell = ('i', el, C(0))
            conds = {el: True, cell: True, op('strip', cell): True, op('startswith', op('strip', cell), C('#')): False}
            if 'file_type' not in g.params:
                raise AnalysisError('generate_terms has no parameter file_type')
            findings, obs = [], []
            n = 0
            for st, k, v in it.run(g, {'file_type': ftype}, conds=conds):
                evs = list(st.events)
                for e in evs:
                    if e.kind == 'CALL' and e.args[0] == g.qual:
                        n += 1
                        b = dict(e.args[1])
                        got = b.get('file_type', NONE)
                        want = ftype == C('declare') or kind == 'declare'
                        obs.append(('nested-type', '%s in a document of type %s' % (kind, show(ftype))))
                        if any(is_const(m) and (m == C('declare')) != want or not is_const(m) for m in members(got)):
                            findings.append(Finding('nested-type', e.where, '%s in %s' % (kind, cval(ftype)), 'what a %s row in a '
                                                    'document of type %s names is read as %s' % (kind, show(ftype), show(got)[:60])))
                    elif e.kind == 'YIELD' and e.args[0] in made and kind in ('row', 'section'):
                        got = st.heap.get((e.args[0], '#arg:file_type'), NONE)
                        n += 1
                        obs.append(('nested-type', 'the type of a term'))
                        if got != ftype:
                            findings.append(Finding('nested-type', e.where, 'term', 'a term of a document of type %s gets the type %s' % (
                                show(ftype), show(got)[:60])))
                if kind == 'section' and k != 'raise':
                    # a new section without columns
                    for T in [e.args[0] for e in evs if e.kind == 'YIELD'] if False else list(made):
                        cs = dict(conds_of(st))
                        args = [b for c, b in cs.items() if c == ('a', T, 'args')]
                        if False in args:
                            n += 1
                            ss = [e for e in evs if e.kind == 'STORE' and e.args[0] == T and e.args[1] == 'args']
                            ks = [e for e in evs if e.kind == 'KEY' and e.args[0] == ('a', SELF, '_declared_sections')]
                            obs.append(('columns', 'a section row without columns'))
                            if not ss or not ks or not any(e.kind == 'KEY' and e.args[1] == C('args') for e in evs):
                                findings.append(Finding('columns', (g.module.path, g.qual, g.node.lineno), 'section', 'a section '
                                                        'without columns does not get the declared ones'))
            if kind == 'section' and not any(r == 'columns' for r, _ in obs):
                findings.append(Finding('columns', (g.module.path, g.qual, g.node.lineno), 'section', 'a section without columns '
                                        'does not get the declared ones'))
            if not n:
                raise AnalysisError('generate_terms does nothing with a %s row' % kind)
            return pack(it, findings, obs)
        return go

    for kind in ('include', 'declare', 'row', 'section'):
        for ftype in (NONE, C('declare'), C('include')):
            jobs.append(('generate %s %s' % (kind, ftype), gen_job(kind, ftype)))

    # ---- publication
    def src(parser, which):
        names = {'decl_terms': ('terms', 'declared_terms', '_declared_terms'),
                 'decl_sections': ('sections', 'declared_sections', '_declared_sections'),
                 'super_terms': ('super_terms',)}[which]

        def is_src(w):
            if w[0] == 'i' and is_const(w[2]) and cval(w[2]) == names[0]:
                b = w[1]
                return any(y[0] == 'a' and y[2] == 'declare_dict' or y[0] == 'x' and y[1].split('.')[-1] == 'declare_dict' for y in walk(b))
            if w[0] == 'x' and w[1].split('.')[-1] in names and parser in list(walk(w)) and not w[1].startswith('.get'):
                return True
            if w[0] == 'a' and w[1] == parser and w[2] in names and w[2] != 'super_terms':
                return True
            h = w[0] == 'n' and parser[0] == 'n' and w in HEAP.get(parser, {}).get(which, ())
            return bool(h)
        return is_src

    HEAP = {}

    def load_job(q, pname):
        f = need('metatab.doc', q)

        def go(cap):
            it = interp(cap)
            findings, obs = [], []
            n = 0
            for st, k, v in it.run(f):
                if k == 'raise':
                    continue
                evs = list(st.events)
                if any(e.kind == 'HANDLER' for e in evs):
                    continue
                param = ('p', f.params[1])
                cs = conds_of(st)
                if any(not b and c == param for c, b in cs) or any(b and c[0] == 'o' and c[1] in ('is', '==') and param in c[2:4]
                                                                   for c, b in cs):
                    continue
                parsers = [e.args[0] for e in evs if e.kind == 'NEW' and e.args[1] == 'TermParser'] if pname is None else [param]
                here = (f.module.path, f.qual, f.node.lineno)
                if not parsers:
                    findings.append(Finding('published', here, 'parser', 'the declarations are not parsed'))
                    continue
                n += 1
                T = parsers[-1]
                # all of the rows are read
                end = None
                for i, e in enumerate(evs):
                    if e.kind == 'ITER' and over(e.args[0], T) and not partial_iter(e.args[0], st):
                        if not any(h.kind in ('BREAK', 'LOOPRETURN') for h in evs[i:span(evs, i)]):
                            end = span(evs, i)
                    elif e.kind == 'ITERNONE' and over(e.args[0], T):
                        end = i
                    elif e.kind == 'ITERATE' and e.args[0] == T:
                        calls = [h for h in evs[max(0, i - 3):i + 1] if h.kind == 'XCALL' and T in [
                            y for a in h.args[2] for y in walk(a)]]
                        if not calls or any(h.args[0].split('.')[-1] in DRAIN for h in calls):
                            end = i
                obs.append(('published', '%s: the rows' % q))
                if end is None:
                    findings.append(Finding('published', here, 'rows', 'the rows of the declarations are not all read'))
                    continue
                for table in ('decl_terms', 'decl_sections', 'super_terms'):
                    obs.append(('published', '%s: %s' % (q, table)))
                    r, wh = published(it, st, SELF, table, src(T, table), end)
                    if r is None:
                        findings.append(Finding('published', here, table, 'what the parser has read is not put in %s after reading the '
                                                'rows' % table))
                    elif r == 'part':
                        findings.append(Finding('published', wh or here, table, 'only a part of what the parser has read is put in %s'
                                                % table))
                # derived terms
                obs.append(('derived', q))
                sup = [i for i, e in enumerate(evs) if i >= end and (
                    e.kind == 'MUT' and e.args[0] == ('a', SELF, 'super_terms') or e.kind == 'STORE' and e.args[0] == SELF and
                    e.args[1] == 'super_terms')]
                new = st.heap.get((SELF, 'super_terms'))
                own = lambda w: w == ('a', SELF, 'super_terms') or new is not None and w == new
                der = [(i, e) for i, e in enumerate(evs) if e.kind == 'STORE' and e.args[0] == SELF and e.args[1] == 'derived_terms' or
                       e.kind == 'MUT' and e.args[0] == ('a', SELF, 'derived_terms') and e.args[1] in ('update', 'setdefault', '__setitem__')]
                reads = [i for i, e in enumerate(evs) if e.kind in ('ITER', 'ITERNONE', 'ITERATE') and any(
                    own(w) for w in expand(it, st, e.args[0]))]
                if not der or not reads:
                    if not any(e.kind == 'ITERNONE' for e in evs[end:]) or not reads and not der:
                        findings.append(Finding('derived', here, 'derived_terms', 'the derived terms are not computed from the super '
                                                'terms'))
                elif sup and max(reads) < max(sup):
                    findings.append(Finding('derived', evs[max(reads)].where, 'order', 'the derived terms are computed before the super '
                                            'terms are complete'))
                for e in evs:
                    if e.kind == 'XCALL' and e.args[0].split('.')[-1] == 'groupby':
                        a = e.args[2][0] if e.args[2] else NONE
                        key = e.args[2][1] if len(e.args[2]) > 1 else dict(e.args[3]).get('key')
                        s = [h for h in evs if h.kind == 'XCALL' and h.args[0] in ('sorted', '.sort', 'list.sort')]
                        if not s or not any(dict(h.args[3]).get('key') == key for h in s):
                            findings.append(Finding('derived', e.where, 'groupby', 'the super terms are grouped without being sorted by '
                                                    'the same key'))
            if not n:
                raise AnalysisError('%s: no path loads declarations' % q)
            return pack(it, findings, obs)
        return go

    jobs.append(('load_terms', load_job('MetatabDoc.load_terms', 'terms')))
    jobs.append(('load_declarations', load_job('MetatabDoc.load_declarations', None)))

    # ---- a new parser
    fp = need(P, 'TermParser.__init__')

    def seed_job(cap):
        it = interp(cap, ('TermParser.doc', 'TermParser.install_declare_terms'))
        findings, obs = [], []
        doc = ('p', 'doc')
        n = 0
        for st, k, v in it.run(fp):
            if k == 'raise':
                continue
            cs = conds_of(st)
            if any(not b and c == doc for c, b in cs) or any(b and c[0] == 'o' and c[1] in ('is', '==') and doc in c[2:4] and NONE in c[2:4]
                                                             for c, b in cs):
                continue
            n += 1
            evs = list(st.events)
            for table, name in (('_declared_terms', 'decl_terms'), ('_declared_sections', 'decl_sections')):
                obs.append(('seeded', '%s from %s' % (table, name)))
                r, wh = published(it, st, SELF, table, lambda w: w == ('a', doc, name))
                here = (fp.module.path, fp.qual, fp.node.lineno)
                if r is None:
                    findings.append(Finding('seeded', here, table, 'a new parser does not start with %s of its document' % name))
                elif r == 'part':
                    findings.append(Finding('seeded', wh or here, table, 'a new parser starts with a part of %s of its document' % name))
                else:
                    # not emptied afterwards
                    last = max([i for i, e in enumerate(evs) if e.kind == 'STORE' and e.args[0] == SELF and e.args[1] == table], default=-1)
                    r2, _ = published(it, st, SELF, table, lambda w: w == ('a', doc, name), last)
                    if r2 is None:
                        findings.append(Finding('seeded', here, table, '%s of a new parser is replaced' % table))
        if not n:
            raise AnalysisError('TermParser.__init__: no path with a document')
        return pack(it, findings, obs)

    jobs.append(('seed', seed_job))

    # ---- declarations given to the constructor
    fd = need('metatab.doc', 'MetatabDoc.__init__')

    def ctor_job(cap):
        it = interp(cap, (), {'TermParser.__init__': 'any'}, opaque=('TermParser', 'RootSectionTerm', 'WebResolver'))
        findings, obs = [], []
        decl = ('p', 'decl')
        n = 0
        here = (fd.module.path, fd.qual, fd.node.lineno)
        for st, k, v in it.run(fd):
            evs = list(st.events)
            calls = [i for i, e in enumerate(evs) if e.kind == 'CALL' and e.args[0] == 'MetatabDoc.load_declarations']
            news = [i for i, e in enumerate(evs) if e.kind == 'NEW' and e.args[1] == 'TermParser']
            loads = [i for i, e in enumerate(evs) if e.kind == 'CALL' and e.args[0] == 'MetatabDoc.load_terms']
            if k == 'raise' and not news and not calls:
                continue
            cs = conds_of(st)
            none = any(b and c[0] == 'o' and c[1] in ('is', '==') and decl in c[2:4] and NONE in c[2:4] for c, b in cs) or any(
                not b and c == decl for c, b in cs)
            n += 1
            obs.append(('given', 'a path of the constructor'))
            if none:
                continue
            if not calls:
                findings.append(Finding('given', here, 'missing', 'the declarations given to the constructor are not read'))
                continue
            if news and min(news) < min(calls) or loads and min(loads) < min(calls):
                findings.append(Finding('given', evs[min(calls)].where, 'order', 'the declarations given to the constructor are read after '
                                        'the parser of the document was made'))
            a = [w for _, w in evs[calls[0]].args[1]][1:2]
            if not a or decl not in [y for w in members(a[0]) for y in expand(it, st, w)] or any(
                    partial_iter(m, st) for m in members(a[0])):
                findings.append(Finding('given', evs[calls[0]].where, 'which', 'what is read is not what was given to the constructor'))
        if not n:
            raise AnalysisError('MetatabDoc.__init__: no path')
        return pack(it, findings, obs)

    jobs.append(('constructor', ctor_job))

    fl = need('metatab.doc', 'MetatabDoc.load_declarations')

    def decls_job(cap):
        it = interp(cap)
        findings, obs = [], []
        decls = ('p', fl.params[1])
        n = 0
        for st, k, v in it.run(fl):
            if k == 'raise':
                continue
            evs = list(st.events)
            for i, e in enumerate(evs):
                if e.kind != 'ITER' or decls not in list(walk(e.args[0])):
                    continue
                n += 1
                obs.append(('given', 'a declaration of the list'))
                el = [w for w in walk(e.args[1]) if w[0] == 'e' and decls in list(walk(w))] or [e.args[1]]
                body = evs[i:span(evs, i)]
                if partial_iter(e.args[0], st) or any(h.kind == 'BREAK' for h in body):
                    findings.append(Finding('given', e.where, 'part', 'only a part of the declarations is read'))
                elif not any(h.kind in ('EMIT', 'MUT') for h in body):
                    given = {decls, ('a', ('p', 'self'), 'decls')}

                    def extant(c):
                        if any(y in given for w in c[2:] if isinstance(w, tuple) and el[0] not in list(walk(w))
                               for y in origins(it, st, w)):
                            return False
                        return el[0] in list(walk(c)) and any(
                            y[0] == 'x' and y[1].split('.')[-1] in ('find', 'find_first', 'find_values') for w in c[2:] if isinstance(w, tuple)
                            for y in origins(it, st, w))

                    ok = any(b and c[0] == 'o' and c[1] in ('in', '==') and extant(c) for c, b in conds_of(st)) or any(
                        not b and c[0] == 'o' and c[1] == 'not in' and extant(c) for c, b in conds_of(st)) or any(
                        not b and c == el[0] for c, b in conds_of(st))
                    if not ok:
                        findings.append(Finding('given', e.where, 'part', 'a declaration that the document does not have is not read'))
        if not n:
            findings.append(Finding('given', (fl.module.path, fl.qual, fl.node.lineno), 'part', 'the declarations are not gone over'))
        return pack(it, findings, obs)

    jobs.append(('decls', decls_job))

    # ---- views of the tables
    def view_job(q, prop):
        f = need(P, q)

        def go(cap):
            it = interp(cap, ('TermParser.declared_terms', 'TermParser.declared_sections'))
            findings, obs = [], []
            table = ('a', SELF, '_declared_terms')
            here = (f.module.path, f.qual, f.node.lineno)
            n = 0
            for st, k, v in it.run(f):
                if k == 'raise':
                    continue
                evs = list(st.events)
                for i, e in enumerate(evs):
                    if e.kind != 'ITER' or table not in [w for y in walk(e.args[0]) for w in ([y] if y[0] != 'n' else expand(it, st, y))]:
                        continue
                    n += 1
                    obs.append(('complete', '%s: a declaration' % q))
                    body = evs[i:span(evs, i)]
                    ends = [h for h in body if h.kind in ('BREAK', 'LOOPRETURN')]
                    emits = [h for h in body if h.kind in ('EMIT', 'YIELD') or h.kind == 'MUT' and h.args[1] in ('__setitem__', 'update', 'setdefault')]
                    if partial_iter(e.args[0], st) or ends:
                        findings.append(Finding('complete', e.where, q, 'only a part of the declarations is gone over'))
                        continue
                    if any(h.kind == 'MUT' and h.args[1] == 'setdefault' for h in emits):
                        pass
                    if not emits:
                        asked = any(h.kind == 'KEY' and h.args[1] == C(prop) for h in body)
                        ok = asked and not any(b and C(prop) in list(walk(c)) and not (c[0] == 'o' and c[1] in ('is', '==', 'not in'))
                                               for c, b in conds_of(st))
                        ok = ok or any(h.kind == 'HANDLER' and 'KeyError' in str(h.args) for h in body)
                        if not ok:
                            findings.append(Finding('complete', e.where, q, 'a declaration with %s is left out' % prop))
                if not any(e.kind in ('ITER', 'ITERNONE') for e in evs) and n == 0:
                    pass
            if not n:
                findings.append(Finding('complete', here, q, 'the declarations are not gone over'))
            return pack(it, findings, obs)
        return go

    jobs.append(('super_terms', view_job('TermParser.super_terms', 'inheritsfrom')))
    jobs.append(('synonyms', view_job('TermParser.synonyms', 'synonym')))

    def dict_job(cap):
        f = need(P, 'TermParser.declare_dict')
        it = interp(cap, ('TermParser.declared_terms', 'TermParser.declared_sections'))
        findings, obs = [], []
        for st, k, v in it.run(f):
            if k == 'raise':
                continue
            for name, table in (('terms', '_declared_terms'), ('sections', '_declared_sections')):
                got = [w for s, w in it.load_item(st.copy(), v, C(name), None)] if hasattr(it, 'load_item') else []
                obs.append(('complete', 'declare_dict: ' + name))
                ts = [('a', SELF, table)]
                if not any(y in ts for y in expand(it, st, v)):
                    findings.append(Finding('complete', (f.module.path, f.qual, f.node.lineno), name, 'declare_dict does not have %s' % table))
        return pack(it, findings, obs)

    jobs.append(('declare_dict', dict_job))

    # ---- lookups by the document
    def used_job(m, q, table, key, effect, inline=()):
        f = need(m, q)

        def go(cap):
            it = interp(cap, inline)
            findings, obs = [], []
            here = (f.module.path, f.qual, f.node.lineno)
            hit = False
            for st, k, v in it.run(f):
                if k == 'raise':
                    continue
                evs = list(st.events)
                ks = [e for e in evs if e.kind == 'KEY' and e.args[0][0] == 'a' and e.args[0][2] == table and e.args[2] in ('get', 'load')]
                if ks and (key is None or any(e.kind == 'KEY' and e.args[1] == C(key) for e in evs)):
                    if effect is None or any(e.kind == 'STORE' and e.args[1] == effect for e in evs):
                        hit = True
            obs.append(('used', '%s: %s' % (q, effect or table)))
            if not hit:
                findings.append(Finding('used', here, effect or table, '%s does not look %s up in %s' % (q, effect or 'it', table)))
            return pack(it, findings, obs)
        return go

    for args in (('metatab.doc', 'MetatabDoc.add_term', 'decl_terms', 'termvaluename', 'term_value_name'),
                 ('metatab.doc', 'MetatabDoc.add_term', 'decl_terms', 'childpropertytype', 'child_property_type'),
                 ('metatab.doc', 'MetatabDoc.new_section', 'decl_sections', 'args', 'args'),
                 ('metatab.doc', 'MetatabDoc.section_args', 'decl_sections', 'args', None),
                 ('metatab.terms', 'Term.new_child', 'decl_terms', 'termvaluename', 'term_value_name')):
        jobs.append(('used %s %s' % (args[1], args[4]), used_job(*args)))

    # ---- results that are kept
    def stale_job(cap):
        findings, obs = [], []
        readers = set()
        funcs = [f for f in prog.funcs.values()]
        uses = {}
        for f in funcs:
            names = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute):
                    names.add(n.attr)
            uses[f] = names
        changed = True
        rn = {}
        for f in funcs:
            direct = uses[f] & TABLES
            if direct:
                rn[f] = set(direct)
        while changed:
            changed = False
            for f in funcs:
                for h in list(rn):
                    s = h.qual.split('.')[-1]
                    if s in uses[f] and h is not f and not s.startswith('__') and s not in ('get', 'find', 'items', 'update', 'rows', 'add_term'):
                        if not rn[h] <= rn.get(f, set()):
                            rn.setdefault(f, set()).update(rn[h])
                            changed = True
        memo = {}
        for f in rn:
            for dec in getattr(f.node, 'decorator_list', []):
                d = dec.func if isinstance(dec, ast.Call) else dec
                nm = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ''
                if nm in MEMO:
                    memo[f.qual.split('.')[-1]] = (f, nm, rn[f])
        # attributes of the parser, the document or a module that keep a result
        it = None
        writers = []
        names = called_names(prog)
        total = dict(paths=0)
        anal = set()
        for f in base(prog):
            if f.module.name not in ('metatab.parser', 'metatab.doc') or not top(f) or f not in rn:
                continue
            ws = {n for n in TABLES if n in uses[f]}
            callers = [h for h in funcs if h is not f and f.qual.split('.')[-1] in uses[h]]
            it = Interp(prog, atoms=boundaries(prog), cap=min(cap, 24), observers=[lambda e, st, it_: e.kind in ('STORE', 'MUT')])
            reader_names = {h.qual.split('.')[-1] for h in rn if not h.qual.split('.')[-1].startswith('__')} - {'get', 'find', 'items'}

            def depends(st, v):
                return [w for w in contents(st, v) if w[0] == 'a' and w[2] in TABLES or
                        w[0] == 'x' and w[1].split('.')[-1] in reader_names & {'super_terms', 'synonyms', 'declare_dict', 'get_term_class',
                                                                           'substitute_synonym', 'section_args', 'inherited_children'}
                        or w[0] == 'a' and w[2] in ('synonyms', 'declare_dict')]
            try:
                outs = it.run(f)
            except AnalysisError:
                continue
            anal.update(it.analysed)
            for st, k, v in outs:
                for e in st.events:
                    if e.kind == 'STORE':
                        b, a, val = e.args[:3]
                        if a in TABLES:
                            continue
                        if b == SELF and f.qual.split('.')[0] in ('TermParser', 'MetatabDoc') or b[0] in ('C', 'M', 'g', 'G'):
                            if depends(st, val):
                                memo.setdefault(a, (f, 'attribute', {y[2] for y in depends(st, val) if y[0] == 'a'}))
                    elif e.kind == 'MUT':
                        b = e.args[0]
                        if b[0] == 'a' and b[1] == SELF and f.qual.split('.')[0] in ('TermParser', 'MetatabDoc') and b[2] not in TABLES or \
                                b[0] in ('G', 'g'):
                            vals = e.args[3] if len(e.args) > 3 else ()
                            for val in vals:
                                if isinstance(val, tuple) and depends(st, val):
                                    a = b[2] if b[0] == 'a' else b[-1]
                                    memo.setdefault(a, (f, 'attribute', {y[2] for y in depends(st, val) if y[0] == 'a'}))
        for a, (f, how, reads) in sorted(memo.items(), key=lambda y: y[0]):
            obs.append(('stale', '%s of %s' % (how, a)))
        # what changes the tables, from the outside
        inl = ['TermParser.add_declared_term', 'TermParser.add_declared_section', 'TermParser.add_value_set_value',
               'TermParser.inherited_children']
        for m, q in (('metatab.parser', 'TermParser.manage_declare_terms'), ('metatab.doc', 'MetatabDoc.load_terms'),
                     ('metatab.doc', 'MetatabDoc.load_declarations')):
            f = need(m, q)
            it = Interp(prog, atoms=boundaries(prog, inline=inl if m == 'metatab.parser' else ()), cap=cap,
                        observers=[lambda e, st, it_: e.kind in ('STORE', 'MUT', 'XCALL', 'ITER', 'ITEREND')])
            cls = q.split('.')[0]
            bad = {}
            for st, k, v in it.run(f):
                if k == 'raise':
                    continue
                evs = list(st.events)
                for a, (mf, how, reads) in memo.items():
                    if mf.qual.split('.')[0] != cls and how != 'attribute':
                        continue
                    if mf.qual.split('.')[0] in ('TermParser', 'MetatabDoc') and mf.qual.split('.')[0] != cls:
                        continue
                    w = [i for i, e in enumerate(evs) if e.kind == 'MUT' and any(
                        y[0] == 'a' and y[1] == SELF and y[2] in TABLES for y in walk(e.args[0])) or
                        e.kind == 'STORE' and e.args[0] == SELF and e.args[1] in TABLES]
                    if not w:
                        continue
                    r = [i for i, e in enumerate(evs) if
                         e.kind == 'XCALL' and e.args[0].split('.')[-1] in ('cache_clear', 'clear') and a in str(e.args[1:3]) or
                         e.kind == 'STORE' and e.args[1] == a or
                         e.kind == 'MUT' and e.args[0][0] in 'aGg' and e.args[0][-1] == a and e.args[1] in ('clear', 'pop', '__delitem__') or
                         e.kind == 'XCALL' and e.args[0] in ('delattr', 'setattr') and a in str(e.args[2]) or
                         e.kind in ('MUT', 'XCALL') and e.args[1 if e.kind == 'MUT' else 0] in ('pop', '.pop') and a in str(e.args) and '__dict__' in str(e.args)]
                    if not r or max(r) < max(w):
                        bad[a] = evs[max(w)].where
            for a, where in bad.items():
                findings.append(Finding('stale', where, a, '%s changes the declarations and keeps %s, which was computed from them' % (q, a)))
            anal.update(it.analysed)
        it.analysed = anal
        return pack(it, findings, obs)

    jobs.append(('stale', stale_job))
    import os
    if os.environ.get('SA_ONLY'):
        jobs = [j for j in jobs if os.environ['SA_ONLY'] in j[0]]
    sweep(ck, jobs, job, label=lambda j: j[0], caps=(96, 24))
