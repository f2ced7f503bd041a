"""C31 Lookups return exactly the matching terms, in order."""
from ..common import *
from ..values import TAGS
from ..total import expand, occurs, partial_iter

KINDS = {'COND', 'ITER', 'ITERNONE', 'BREAK', 'ITEREND', 'MUT', 'EMIT', 'YIELD', 'HANDLER', 'LOOPRETURN', 'RAISE', 'CALL', 'XCALL',
         'GENVAL', 'NEXT'}
THIN = ['MetatabDoc.find_first', 'MetatabDoc.find_first_value', 'MetatabDoc.get', 'MetatabDoc.get_value', 'SectionTerm.get_term',
        'SectionTerm.find_first', 'SectionTerm.find', 'SectionTerm.find_first_value', 'SectionTerm.__getitem__',
        'SectionTerm.name', 'Term.find_first', 'Term.find_first_value', 'Term.find_value', 'Term.get', 'Term.get_value',
        'Term.__getitem__', 'Term.find']
ORDERED = ('sorted', 'reversed', 'set', 'frozenset', '.sort', '.reverse', 'heapq.nsmallest', 'heapq.nlargest')


def disordered(v, it=None, st=None):
    for w in (expand(it, st, v) if it else walk(v)):
        if w[0] == 'n' and st is not None and (w, '#sorted') in st.heap:
            return True
        if w[0] == 'x' and w[1] in ORDERED or w[0] == 'o' and w[1] in ('sorted', 'reversed', 'set'):
            return True
        if w[0] == 'n' and w[1] in ('set', 'frozenset'):
            return True
    return False


def conds(st):
    out = list(st.conds.items())
    out += [(e.args[0], e.args[1]) for e in st.events if e.kind == 'COND']
    return out


def eq(c, left, right):
    """c compares a value that satisfies left to one that satisfies right."""
    if c[0] == 'o' and c[1] == '==':
        a, b = c[2:4]
        return left(a) and right(b) or left(b) and right(a)
    return False


def isin(c, left, right):
    return c[0] == 'o' and c[1] == 'in' and left(c[2]) and right(c[3])


def lowered(v):
    return v[0] == 'o' and v[1] in ('lower', 'casefold') or v[0] == 'x' and (v[1].endswith('_lc')) or is_const(v)


def has(v, w):
    return any(a == w for a in walk(v))


def atoms(c):
    """(aggregate, negated, comparison) in a condition: any(not(a == b)) gives ('any', True, a == b)."""
    agg, neg = None, False
    while True:
        if c[0] == 'x' and c[1] in ('any', 'all') and len(c[2]) == 1:
            if agg is not None:
                return None
            agg, c = c[1], c[2][0]
            if neg:
                agg, neg = {'any': 'all', 'all': 'any'}[agg], True
        elif c[0] == 'o' and c[1] == 'not' and agg is None:
            return None if neg else (lambda r: r and (r[0], not r[1], r[2]))(atoms(c[2])) if c[2][0] == 'o' else None
        elif c[0] == 'o' and c[1] == 'not':
            neg, c = not neg, c[2]
        else:
            return agg, neg, c


def every(c, b, test):
    """What a condition says about all the comparisons: True, False or None."""
    r = atoms(c)
    if r is None or not test(r[2]):
        return None
    agg, neg, _ = r
    if agg is None:
        return b != neg
    if agg == 'all':
        return b if not neg else (False if b else None)
    return (not b) if neg else (None if b else False)


def some(c, b, test):
    r = atoms(c)
    if r is None or not test(r[2]):
        return None
    agg, neg, _ = r
    if agg is None:
        return b != neg
    if agg == 'any':
        return b if not neg else (None if b else True)
    return (not b) if neg else None


def truth(v):
    """The truth of a value made of constants."""
    if is_const(v):
        return bool(cval(v))
    if v[0] == 'o':
        a = v[2:]
        if v[1] == 'not':
            t = truth(a[0])
            return None if t is None else not t
        if v[1] in ('and', 'or', '&', '|'):
            ts = [truth(w) for w in a]
            if v[1] in ('and', '&'):
                return False if False in ts else None if None in ts else True
            return True if True in ts else None if None in ts else False
        if v[1] == '==' and all(is_const(w) for w in a):
            return cval(a[0]) == cval(a[1])
        if v[1] == 'in' and is_const(a[0]):
            if a[1][0] == 't' and all(is_const(w) for w in a[1][1:]):
                return a[0] in a[1][1:]
            if is_const(a[1]) and isinstance(cval(a[1]), str):
                return cval(a[0]) in cval(a[1])
        if v[1] in ('endswith', 'startswith') and all(is_const(w) for w in a):
            return getattr(cval(a[0]), v[1])(cval(a[1]))
    if v[0] == 'x' and v[1] == 'bool' and len(v[2]) == 1:
        return truth(v[2][0])
    if v[0] == 'x' and v[1] in ('any', 'all'):
        ts = [truth(w) for w in v[2]]
        return None if None in ts else any(ts) if v[1] == 'any' else all(ts)
    return None


def run(prog, ck, thorough):
    ck.rule('select', 'a search goes over all the terms it can find and returns each one exactly when its name, value, section '
                      'and properties match, once and in order', 20)
    ck.rule('name-match', 'a name matches a term when both its parts are those of the term or *', 0)
    ck.rule('names', 'a search for several names, or a name with derived ones, finds the terms of each of them', 2)
    ck.rule('first', 'the lookups of one term or value use the first term of that search, with the same name, value, section '
                     'and properties, and give up only when there is none', 10)
    ck.rule('all', 'the terms that are searched are all those of the document: every term of every section with all its '
                   'descendants', 3)
    ck.notes.append('the search of several names gives the terms of the first name, then those of the second, and so on; the '
                    'root term and the section that are not terms of a section are not found')

    def interp(cap, inline=(), extra=None):
        return Interp(prog, atoms=boundaries(prog, inline=inline, extra=extra), cap=cap, comp_paths=True, merge_calls=False,
                      observers=[lambda ev, st, it: ev.kind in KINDS])

    # --------------------------------------------------------------------------------------------- MetatabDoc.find
    me = ('p', 'self')
    TERMS = ('a', me, 'terms')

    def source_of(v, it=None, st=None):
        """What a collection holds, in its order."""
        for w in (expand(it, st, v) if it else walk(v)):
            if w == TERMS:
                return 'terms'
            if w[0] == 'x' and w[1] == 'MetatabDoc.all_terms':
                return 'all'
            if w[0] == 'x' and w[1] == 'MetatabDoc.find':
                return 'find'
        return None

    find = prog.func('doc', 'MetatabDoc.find')
    pv, psec = ('p', 'value'), ('p', 'section')
    isl = lambda v: ('o', 'isinstance', v, ('t', ('g', 'list'), ('g', 'tuple')))

    cases = []
    for name, all_ in (('root.xa', False), ('Xa', False), ('root.*', False), ('xa.xb', True), ('*.xb', True), ('xa.*', True),
                       ('*.*', True), ('rootxa.xb', True), ('xroot.xb', True), ('roots.*', True)):
        for value in ('any', 'given'):
            for section in ('any', 'one', 'several'):
                if all_ and name != 'xa.xb' and (value, section) != ('any', 'any'):
                    continue
                cases.append(('find', name, all_, value, section, False))
    for value in ('any', 'given'):
        for section in ('any', 'one'):
            cases.append(('find', 'root.xa', False, value, section, True))

    def select(case, cap):
        _, name, all_, value, section, kw = case
        it = interp(cap)
        findings, obs = [], []
        label = 'find(%r, value %s, section %s%s)' % (name, value, section, ', properties' if kw else '')
        args = {'_expand_derived': TRUE if kw else FALSE, 'term': C(name)}
        cs = {('p', 'kwargs'): kw}
        if value == 'any':
            args['value'] = FALSE
        else:
            cs[('o', 'is', pv, FALSE)] = False
        if section == 'any':
            args['section'] = NONE
        elif section == 'one':
            args['section'] = C('Seca')
        else:
            cs[('o', 'isnone', psec)] = False
            cs[psec] = True
        full = {name.lower(), name} if '.' in name else {name.lower(), name, 'root.' + name.lower(), 'root.' + name}
        bad = {}

        def fail(where, what, text):
            bad.setdefault((where, what), Finding('select', where, what, '%s: %s' % (label, text)))

        n = 0
        for st, k, v in it.run(find, args, conds=cs):
            if k != 'return':
                continue
            cc = conds(st)
            # a list of sections, given or not
            if section == 'several' and any(c[0] == 'o' and c[1] == 'isinstance' and c[2] == psec and b != any(
                    g == ('g', 'list') for g in walk(c[3])) for c, b in cc):
                continue
            if section == 'several' and any(c[0] == 'o' and c[2] == ('e', psec) and (c[1] == 'isnone' and b or c[1] == 'isinstance' and b == any(
                    g == ('g', 'list') for g in walk(c[3]))) for c, b in cc):
                continue
            if any(c == TRUE and not b or c == FALSE and b for c, b in cc):
                continue
            if section == 'several' and any(e.kind == 'ITERNONE' and has(e.args[0], psec) for e in st.events):
                continue        # no section was given
            its = [e for e in st.events if e.kind in ('ITER', 'ITERNONE') and source_of(e.args[0], it, st)]
            # the search itself is not the search of the derived names
            if kw and not any(source_of(e.args[0], it, st) for e in its):
                rec = [w for w in expand(it, st, v) if w[0] == 'x' and w[1] == 'MetatabDoc.find']
                if rec:
                    continue
            if not its:
                if not occurs_find(it, st, v):
                    fail(find_where(find), 'nothing searched', 'a path returns without going over the terms')
                continue
            mine = [e for e in its if e.kind == 'ITER']
            for e in its:
                n += 1
                s = source_of(e.args[0], it, st)
                if partial_iter(e.args[0], st):
                    fail(e.where, 'part', 'only a part of the terms is searched (%s)' % show(e.args[0])[:80])
                if disordered(e.args[0], it, st):
                    fail(e.where, 'order', 'the terms are not searched in their order (%s)' % show(e.args[0])[:80])
                if s == 'terms' and all_:
                    fail(e.where, 'top level', 'only the top level terms are searched for a name that is not one of the root')
                if s == 'find':
                    call = next(w for w in expand(it, st, e.args[0]) if w[0] == 'x' and w[1] == 'MetatabDoc.find')
                    for i, (p, want) in enumerate((('name', args['term']), ('value', args.get('value', pv)), ('section', args.get('section', psec)))):
                        got = call[2][i + 1] if len(call[2]) > i + 1 else None
                        if got != want and not (p == 'name' and got is not None and is_const(got) and cval(got) in full):
                            fail(e.where, p, 'the %s is not part of the search of the terms with the properties' % p)
            if any(e.kind in ('BREAK', 'LOOPRETURN') and source_of(e.args[0], it, st) for e in st.events if e.kind == 'BREAK'):
                e = next(e for e in st.events if e.kind == 'BREAK' and source_of(e.args[0], it, st))
                fail(e.where, 'break', 'the search ends before all terms were seen')
            for e in mine[:1]:
                el = e.args[1]
                s = source_of(e.args[0], it, st)
                adds = [a for a in st.events if a.kind in ('MUT', 'EMIT') and (
                    a.kind == 'EMIT' and a.args[1] == el or a.kind == 'MUT' and len(a.args) > 3 and el in a.args[3])]
                emitted = occurs(it, st, v, el)
                if emitted and any(a.kind == 'MUT' and a.args[1] in ('insert', 'appendleft') for a in adds):
                    fail(adds[0].where, 'order', 'a term that is found is not put at the end of the result')
                if emitted and any(a.kind == 'MUT' and a.args[1] in ('sort', 'reverse') for a in st.events) or disordered(v, it, st):
                    fail(e.where, 'order', 'the terms that are found are put in another order')
                dest = {}
                for a in adds:
                    dest[a.args[0]] = dest.get(a.args[0], 0) + 1
                if emitted and any(m == v and c > 1 for m, c in dest.items()):
                    fail(adds[-1].where, 'twice', 'a term is put in the result twice')
                # what is known about the term
                known = {}

                def learn(k, b):
                    known.setdefault(k, set()).add(b)

                for c, b in cc:
                    if c[0] == 'x' and c[1] == 'Term.term_is' and c[2][0] == el and len(c[2]) > 1:
                        if is_const(c[2][1]) and cval(c[2][1]) in full:
                            learn('name', b)
                    if eq(c, lambda a: a == ('x', 'Term.join_lc', (el,)), lambda a: a == C('root.root')):
                        learn('root', b)
                    if value == 'given' and eq(c, lambda a: a == ('a', el, 'value'), lambda a: a == pv):
                        learn('value', b)
                    if section != 'any':
                        secof = lambda a: any(w[0] == 'x' and w[1] == 'Term.section' and w[2] == (el,) or w == ('a', el, 'section')
                                              for w in walk(a))
                        wanted = (lambda a: a == C('seca')) if section == 'one' else (lambda a: lowered(a) and has(a, psec))
                        def same(w):
                            return eq(w, lambda a: secof(a) and lowered(a), wanted) or \
                                isin(w, lambda a: secof(a) and lowered(a), lambda a: not secof(a) and (
                                    any(z == psec for z in expand(it, st, a)) if section == 'several' else True) and not (
                                    lowered(a)))

                        r = some(c, b, same)
                        if r is not None:
                            learn('section', r)
                        if c[0] == 'o' and c[1] == 'isnone' and secof(c[2]) and b:
                            learn('section', False)
                        if (c == ('a', el, 'section') or c[0] == 'x' and c[1] == 'Term.section' and c[2] == (el,)) and not b:
                            learn('section', False)
                        if section == 'several' and c == ('x', 'any', (FALSE,)) or section == 'several' and any(
                                a.kind == 'ITERNONE' and has(a.args[0], psec) for a in st.events):
                            learn('section', False)
                    if kw:
                        r = every(c, b, lambda w: eq(
                            w, lambda a: a[0] == 'x' and a[1] == 'Term.get_value' and a[2][0] == el and all(z == NONE for z in a[2][2:]) or
                            a[0] == 'a' and a[2] == 'value' and has(a, el), lambda a: has(a, ('p', 'kwargs')) and not has(a, el)))
                        if r is not None:
                            learn('properties', r)
                need = set() if s == 'find' else {'name'} | ({'value'} if value == 'given' else set()) | (
                    {'section'} if section != 'any' else set())
                if kw and (s == 'find' or any(c == ('p', 'kwargs') and b for c, b in cc)):
                    need.add('properties')
                    if any(a.kind == 'ITERNONE' and has(a.args[0], ('p', 'kwargs')) for a in st.events):
                        continue
                if emitted:
                    for q in sorted(need):
                        if True not in known.get(q, ()) or False in known.get(q, ()):
                            fail(e.where, q, 'a term is found although it is not known that its %s matches' % q)
                    if True in known.get('root', ()):
                        fail(e.where, 'root', 'the root term is found')
                elif not any(False in known.get(q, ()) for q in need) and True not in known.get('root', ()):
                    other = [show(c)[:60] + ' ' + str(b) for c, b in cc if has(c, el)][-3:]
                    fail(e.where, 'dropped', 'a term that matches is not found (%s)' % '; '.join(other))
        if n:
            obs.append(('select', label))
        else:
            raise AnalysisError('%s: no search of the terms was found' % label)
        return pack(it, list(bad.values()), obs)

    def find_where(f):
        return (f.module.path, f.qual, f.node.lineno)

    def occurs_find(it, st, v):
        return any(w[0] == 'x' and w[1] == 'MetatabDoc.find' for w in expand(it, st, v))

    sweep(ck, cases, select, label=str, caps=(128, 32))

    # --------------------------------------------------------------------------------------------- several names
    def names(case, cap):
        it = interp(cap)
        findings, obs = [], []
        seen, complete = set(), set()
        bad = {}
        pt = ('p', 'term')
        der = lambda s: any(w[0] == 'a' and w[2] == 'derived_terms' for w in walk(s))
        args = {'_expand_derived': TRUE if case == 'derived' else FALSE}
        cs = {('p', 'kwargs'): False}

        def fail(where, what, text):
            bad.setdefault((where, what), Finding('names', where, what, text))

        def itself(it, st, v, seen=None):
            """The name that is looked for is in v, other than as the key of its derived names."""
            seen = set() if seen is None else seen
            if not isinstance(v, tuple) or v in seen:
                return False
            seen.add(v)
            if v == pt:
                return True
            if v[0] == 'n':
                return any(itself(it, st, val, seen) for k, val in list(st.heap.items()) if k[0] == v)
            if v[0] == 'phi':
                return any(itself(it, st, w, seen) for w in v[1])
            if isinstance(v[0], str) and v[0] in TAGS and v[0] != 'n' and der(v):
                return False
            return any(itself(it, st, w, seen) for w in v if isinstance(w, tuple))

        for st, k, v in it.run(find, args, conds=cs):
            if k != 'return':
                continue
            cc = conds(st)
            # the paths of a single name are those of the other rule
            if case == 'list' and any(c[0] == 'o' and c[1] == 'isinstance' and c[2] == pt and b != any(
                    g == ('g', 'list') for g in walk(c[3])) for c, b in cc):
                continue
            calls = [w for w in expand(it, st, v) if w[0] == 'x' and w[1] == 'MetatabDoc.find']
            calls += [e.args[1] for e in st.events if e.kind == 'EMIT' and e.args[1][0] == 'x' and e.args[1][1] == 'MetatabDoc.find']
            calls += [w for e in st.events if e.kind in ('ITER', 'ITERNONE') for w in walk(e.args[0]) if w[0] == 'x' and w[1] == 'MetatabDoc.find']
            for c in calls:
                a = list(c[2]) + [None] * 5
                seen.add(a[1])
                if a[2] != pv or a[3] != psec:
                    fail(find_where(find), 'arguments', 'the search of one of several names does not have the value and section '
                         'that are looked for: %s' % show(c)[:120])
            if case == 'derived' and calls is not None:
                its = [e.args[0] for e in st.events if e.kind in ('ITER', 'ITERNONE')]
                its += [x_ for e in st.events if e.kind == 'MUT' and len(e.args) > 3 for x_ in e.args[3]]
                its += [w for c in calls for w in c[2][1:2]]
                if any(itself(it, st, w) for w in its):
                    pass
                elif any(e.kind == 'ITER' and der(e.args[1]) for e in st.events):
                    fail(find_where(find), 'the name itself', 'a name that has derived names is not searched for itself')
            if any(c_[0] != '?' for c_ in calls) and disordered(v) or v[0] == 'n' and (v, '#sorted') in st.heap:
                fail(find_where(find), 'order', 'the terms of several names are put in another order')
            for e in st.events:
                if e.kind == 'ITER' and e.args[1] == ('e', pt) and case == 'list' and not any(('e', pt) in walk(c) for c in calls) \
                        and k == 'return':
                    fail(e.where, 'dropped', 'one of several names is not searched for')
                if e.kind in ('ITER',) and partial_iter(e.args[0], st) and has(e.args[0], pt):
                    fail(e.where, 'part', 'only some of several names are searched for')
        if case == 'list':
            if any(has(s, ('e', pt)) for s in seen if s):
                obs.append(('names', 'each of the names of a list is searched for'))
            elif not bad:
                fail(find_where(find), 'names', 'the names of a list are not searched for')
        else:
            for what, test in (('the name itself', lambda s: has(s, pt) and not der(s)), ('the derived names', der)):
                if any(test(s) for s in seen if s):
                    obs.append(('names', '%s is searched for' % what))
                elif not bad:
                    fail(find_where(find), what, 'a search of a name does not search for %s' % what)
        return pack(it, list(bad.values()), obs)

    sweep(ck, ['list', 'derived'], names, label=str, caps=(128, 32))

    # ---- some lists of names, with root.b being the super term of root.a and root.c
    def once(term, cap):
        heap = {}

        def make(vals, n):
            L = ('n', 'list', '@' + n)
            heap[(L, '#seq')] = ('t',) + tuple(vals)
            if vals:
                heap[(L, '[]')] = phi(vals)
            return L
        dt, der = ('n', 'dict', '@derived'), make([C('root.a'), C('root.c')], 'of b')
        heap[(dt, '[k]', C('root.b'))], heap[(dt, '{k}')], heap[(dt, '{}')] = der, C('root.b'), der
        heap[(me, 'derived_terms')] = dt

        def full(n):
            return n.lower() if '.' in n else 'root.' + n.lower()

        def norm(st, b, it):
            v = [w for k, w in b.items() if k not in ('cls', 'self')][0]
            return C(full(cval(v))) if is_const(v) and isinstance(cval(v), str) else x('Term.normalize_term', v)

        def nested(st, b, it):
            v = b.get('term', TOP)
            if is_const(v) and isinstance(cval(v), str):
                return ('t', x('hits', C(full(cval(v)))))
            return x('unknown search', v)
        it = Interp(prog, atoms=boundaries(prog, extra={'Term.normalize_term': norm, 'MetatabDoc.find': nested}), cap=cap,
                    comp_paths=True, merge_calls=False, implicit=False)
        it.precise = it.exact_comp = it.seqs = True
        want = []
        for n in [term] if isinstance(term, str) else term:
            for d in (['root.a', 'root.c'] if full(n) == 'root.b' else []) + [full(n)]:
                if d not in want:
                    want.append(d)
        label = 'find(%r)' % (term if isinstance(term, str) else list(term),)
        value = C(term) if isinstance(term, str) else make([C(t) for t in term], 'names')
        got = []
        for st, k, v in it.run(find, {'term': value, '_expand_derived': TRUE}, conds={('p', 'kwargs'): False}, heap=heap):
            if k != 'return':
                continue
            hits = it.exact(st, v)
            if hits is None or (('u', 'path'), 'fuzzy') in st.heap or not all(h[0] == 'x' and h[1] == 'hits' for h in hits):
                return pack(it, [], [])
            got.append([cval(h[2][0]) for h in hits])
        findings = []
        if got and all(sorted(g) != sorted(want) for g in got):
            findings.append(Finding('names', find_where(find), 'names', '%s searches for %s, not for each of %s once' % (label, got[0], want)))
        return pack(it, findings, [('names', label)] if got else [])

    sweep(ck, [('A', 'Root.A'), ('B', 'A'), 'B', 'A', ('b', 'B'), ('Zz.q', 'A'), ('C', 'b', 'x.y'), ()], once, label=str, caps=(128, 32))

    # --------------------------------------------------------------------------------------------- Term.find
    kids = ('a', me, 'children')

    def children(case, cap):
        q, value = case
        f = prog.func('terms', q)
        it = interp(cap, inline=[c for c in THIN if c != q])
        bad, obs = {}, []
        label = '%s, value %s' % (q, value)

        def fail(where, what, text):
            bad.setdefault((where, what), Finding('select', where, what, '%s: %s' % (label, text)))

        args, cs = {}, {}
        if value == 'any':
            args['value'] = FALSE
        else:
            cs[('o', 'is', pv, FALSE)] = False
        el = ('e', kids)
        pt = ('p', 'term')
        n = 0
        for st, k, v in it.run(f, args, conds=cs):
            if k != 'return':
                continue
            cc = conds(st)
            if any(c == TRUE and not b or c == FALSE and b or c == el and not b or c == ('o', 'isnone', el) and b for c, b in cc):
                continue
            its = [e for e in st.events if e.kind in ('ITER', 'ITERNONE') and has(e.args[0], kids)]
            if not its:
                if not any(w[0] == 'x' and w[1] == 'Term.find' for w in expand(it, st, v)):
                    fail(find_where(f), 'nothing searched', 'a path returns without going over the children')
                continue
            for e in its:
                n += 1
                if partial_iter(e.args[0], st):
                    fail(e.where, 'part', 'only a part of the children is searched')
                if disordered(e.args[0]):
                    fail(e.where, 'order', 'the children are not searched in their order')
            if its[0].kind != 'ITER':
                continue
            ys = [e for e in st.events if e.kind == 'YIELD' and e.args[0] == el and not e.where[1].endswith('<genexp>')]
            stop = [e for e in st.events if e.kind in ('BREAK', 'LOOPRETURN')]
            first = f.name_ == 'find_first' if hasattr(f, 'name_') else f.qual.endswith('find_first')
            if first:
                emitted = v == el or v[0] == 'i' and occurs(it, st, v, el) or v[0] == 'x' and v[1] == 'next' and occurs(it, st, v, el)
                if emitted and v == el and not stop and not any(e.kind == 'GENVAL' for e in st.events) and not any(
                        e.kind == 'ITER' and e.args[2] == 'comp' for e in its):
                    fail(its[0].where, 'not the first', 'the search goes on after the first child that matches')
                if v[0] == 'i' and emitted and v[2] != C(0):
                    fail(its[0].where, 'not the first', 'the child that is returned is not the first that matches')
                if not emitted and ys and all(e.where[1] != f.qual for e in ys):
                    continue        # the end of a generator that gave the child before
                if not emitted and stop and not any(e.kind == 'GENVAL' for e in st.events):
                    fail(stop[0].where, 'given up', 'the search ends although no child was found')
            else:
                emitted = bool(ys) or occurs(it, st, v, el)
                if len(ys) > 1:
                    fail(ys[1].where, 'twice', 'a child is found twice')
                if stop:
                    fail(stop[0].where, 'break', 'the search ends before all children were seen')
            known = {}
            for c, b in cc:
                if eq(c, lambda a: a == ('x', 'Term.record_term_lc', (el,)) or lowered(a) and has(a, el) and any(
                        w == ('a', el, 'record_term') for w in walk(a)), lambda a: lowered(a) and has(a, pt)):
                    known.setdefault('name', set()).add(b)
                if c[0] == 'x' and c[1] == 'Term.term_is' and c[2][0] == el and has(c, pt):
                    known.setdefault('name', set()).add(b)
                if value == 'given' and eq(c, lambda a: a == ('a', el, 'value'), lambda a: a == pv):
                    known.setdefault('value', set()).add(b)
            need = {'name'} | ({'value'} if value == 'given' else set())
            if emitted:
                for q_ in sorted(need):
                    if known.get(q_) != {True}:
                        fail(its[0].where, q_, 'a child is found although it is not known that its %s matches' % q_)
            elif not any(False in known.get(q_, ()) for q_ in need):
                fail(its[0].where, 'dropped', 'a child that matches is not found')
        if n or not bad:
            obs.append(('select', label))
        return pack(it, list(bad.values()), obs)

    sweep(ck, [(q, v) for q in ('Term.find', 'Term.find_first') for v in ('any', 'given')], children, label=str, caps=(64, 16))

    # --------------------------------------------------------------------------------------------- the thin lookups
    docs = {me, ('a', me, 'doc')}

    def thin(q, cap):
        mod = 'doc' if q.startswith('MetatabDoc') else 'terms'
        f = prog.func(mod, q)
        short = q.split('.')[-1]
        it = interp(cap, inline=THIN)
        bad, obs = {}, []

        def fail(where, what, text):
            bad.setdefault((where, what), Finding('first', where, what, '%s: %s' % (q, text)))

        pt = ('p', f.params[1])
        section = ('a', me, 'value') if q.startswith('SectionTerm') else psec if 'section' in f.params else NONE
        n = 0
        for st, k, v in it.run(f):
            if k != 'return':
                continue
            cc = conds(st)
            calls = []
            for w in list(walk(v)) + [a for c, b in cc for a in walk(c)] + [
                    a for e in st.events if e.kind in ('ITER', 'ITERNONE', 'NEXT') for a in walk(e.args[0])]:
                if w[0] == 'x' and w[1] == 'MetatabDoc.find' and w not in calls:
                    calls.append(w)
            if not calls:
                if short != 'find' and v in (NONE, ('p', 'default')) and any(e.kind == 'HANDLER' for e in st.events):
                    continue
                fail(find_where(f), 'not searched', 'a path gives %s without a search' % show(v)[:60])
                continue
            # impossible paths: a term that is found is true and not None
            first = {('i', c, C(0)) for c in calls} | {('e', c) for c in calls}
            if any(c in first and not b or c[0] == 'o' and c[1] == 'isnone' and c[2] in first and b for c, b in cc):
                continue
            n += 1
            for c in calls:
                a = list(c[2]) + [NONE] * 6
                if a[0] not in docs:
                    fail(find_where(f), 'document', 'the search is not one of the document')
                if a[1] != pt and not (a[1][0] == 'o' and a[1][1] in ('lower', 'str') and a[1][2] == pt):
                    fail(find_where(f), 'name', 'the search is not for the name that is looked up: %s' % show(a[1])[:60])
                if a[2] != (pv if 'value' in f.params else FALSE):
                    fail(find_where(f), 'value', 'the search is not for the value that is looked up: %s' % show(a[2])[:60])
                if a[3] != section and not (section[0] == 'a' and a[3][0] == 'x' and a[3][1] == 'SectionTerm.name'):
                    fail(find_where(f), 'section', 'the search is not in the section that is looked in: %s' % show(a[3])[:60])
                if f.node.args.kwarg is not None and len(c[2]) < 6:
                    fail(find_where(f), 'properties', 'the search does not have the properties that are looked for')
            if short == 'find':
                if v not in calls and not (v[0] == 'n' or v[0] == 'x' and v[1] in ('list', 'tuple')):
                    fail(find_where(f), 'result', 'the terms that are found are not returned: %s' % show(v)[:80])
                continue
            for m in members(v):
                inner = m
                value = 'value' in short
                if value and inner[0] == 'a' and inner[2] == 'value':
                    inner = inner[1]
                    got = 'value'
                elif value:
                    got = 'none' if m in (NONE, ('p', 'default')) else '?'
                else:
                    got = 'term'
                if inner in first and inner[0] == 'i' and got in ('value', 'term'):
                    continue
                if inner[0] == 'e' and inner[1] in calls or inner[0] == 'x' and inner[1] == 'next' and any(has(inner, c) for c in calls):
                    # the first of an iteration
                    if inner[0] == 'e' and not any(e.kind in ('LOOPRETURN', 'BREAK', 'NEXT') for e in st.events):
                        fail(find_where(f), 'not the first', 'the search goes on after the first term that is found')
                    continue
                if m in (NONE, ('p', 'default')):
                    if 'default' in f.params and m == NONE:
                        fail(find_where(f), 'default', 'the default is not returned when no term is found')
                    empty = any(c in calls and not b or c[0] == 'o' and b and c[1] in ('==', '<', '<=') and any(
                        w[0] in 'xo' and w[1] == 'len' and any(a in calls for a in walk(w)) for w in walk(c)) and
                        (C(0) in c[2:] or c[1] == '<' and C(1) in c[2:]) for c, b in cc) or any(
                        e.kind in ('HANDLER', 'NEXT') or e.kind == 'ITERNONE' and any(a in calls for a in walk(e.args[0])) for e in st.events)
                    if not empty:
                        fail(find_where(f), 'given up', 'nothing is returned although a term is found (%s)' % '; '.join(
                            show(c)[:60] + ' ' + str(b) for c, b in cc if c not in calls)[:150])
                    continue
                if inner[0] == 'i' and inner[1] in calls and inner[2] != C(0):
                    fail(find_where(f), 'not the first', 'the term that is returned is not the first that is found: %s' % show(inner)[-40:])
                elif inner[0] == 'a' and inner[1] in first:
                    fail(find_where(f), 'result', 'the result is not the term or value that is found: .%s' % inner[2])
                elif got == '?' and inner in first:
                    fail(find_where(f), 'result', 'the term is returned, not its value')
        if n:
            obs.append(('first', q))
        return pack(it, list(bad.values()), obs)

    sweep(ck, ['MetatabDoc.find_first', 'MetatabDoc.find_first_value', 'MetatabDoc.get', 'MetatabDoc.get_value',
               'SectionTerm.get_term', 'SectionTerm.find_first', 'SectionTerm.find', 'SectionTerm.find_first_value',
               'SectionTerm.__getitem__'], thin, caps=(64, 16))

    # the lookups of a child
    def child(q, cap):
        f = prog.func('terms', q)
        short = q.split('.')[-1]
        it = interp(cap, inline=[c for c in THIN if c != 'Term.find_first'], extra={'Term.find_first': 'any'})
        bad, obs = {}, []

        def fail(where, what, text):
            bad.setdefault((where, what), Finding('first', where, what, '%s: %s' % (q, text)))

        pt = ('p', f.params[1])
        value = 'value' in short
        item = short in ('get', 'get_value', '__getitem__')
        n = 0
        for st, k, v in it.run(f):
            cc = conds(st)
            calls = {w for c in [v] + [c for c, b in cc] if isinstance(c, tuple) for w in walk(c) if w[0] == 'x' and w[1] == 'Term.find_first'}
            own = any(b and eq(c, lambda a: lowered(a) and has(a, pt), lambda a: has(a, ('a', me, 'term_value_name')))
                      for c, b in cc)
            if k == 'raise':
                if item and (own or any(b and c in calls or c[0] == 'o' and c[1] == 'isnone' and c[2] in calls and not b for c, b in cc)):
                    fail(find_where(f), 'given up', 'an error is raised although the item is there')
                continue
            if k != 'return':
                continue
            if any(w[0] == 'a' and w[1] == NONE for w in walk(v)):
                continue
            n += 1
            for c in calls:
                a = list(c[2]) + [FALSE, FALSE]
                if a[0] != me or not has(a[1], pt) or a[2] != FALSE:
                    fail(find_where(f), 'arguments', 'the child that is looked up is not the one that is asked for: %s' % show(c)[:80])
            if item and own:
                if v != (('a', me, 'value') if value else me):
                    fail(find_where(f), 'value name', 'the value name of the term gives %s' % show(v)[:60])
                continue
            if v in (NONE, ('p', 'default')):
                if any(e.kind == 'HANDLER' for e in st.events):
                    continue
                if not any(c in calls and not b or c[0] == 'o' and c[1] == 'isnone' and c[2] in calls and b for c, b in cc):
                    fail(find_where(f), 'given up', 'nothing is returned although it is not known that the child is not there')
                continue
            for m in members(v):
                inner = m[1] if value and m[0] == 'a' and m[2] == 'value' else m
                if inner in calls and (inner is not m) == value:
                    continue
                if m in (NONE, ('p', 'default')):
                    continue
                fail(find_where(f), 'result', 'the result is not the child or value that is looked up: %s' % show(m)[:80])
        if n:
            obs.append(('first', q))
        return pack(it, list(bad.values()), obs)

    sweep(ck, ['Term.find_first_value', 'Term.find_value', 'Term.get', 'Term.get_value', 'Term.__getitem__'], child, caps=(64, 16))

    # --------------------------------------------------------------------------------------------- Term.term_is
    match = prog.func('terms', 'Term.term_is')
    table = []
    for p in ('Par', 'par', '*', 'other', 'pa', 'ar'):
        for r in ('Rec', 'rec', '*', 'other', 're', 'par', 'ec'):
            table.append(('par', 'rec', p + '.' + r, p.lower() in ('par', '*') and r.lower() in ('rec', '*')))
    for r, want in (('rec', True), ('Rec', True), ('*', True), ('other', False), ('root', False)):
        table.append(('root', 'rec', r, want))
    for r in ('rec', 'Par', '*'):
        table.append(('par', 'rec', r, False))

    def term_is(row, cap):
        parent, record, name, want = row
        it = interp(cap, inline=['Term.term_is', 'Term.join_lc', 'Term.join', 'Term.parent_term_lc', 'Term.record_term_lc', 'Term.split_term',
                                 'Term.split_term_lower', 'Term.normalize_term', 'Term.qualified_term'])
        it.exact_comp = True
        bad, obs = {}, []
        heap = {(me, 'parent_term'): C(parent), (me, 'record_term'): C(record), (me, 'parent'): NONE if parent == 'root' else TOP}
        res = set()
        for st, k, v in it.run(match, {'v': C(name)}, heap=heap):
            if k == 'raise':
                continue
            if any(is_const(c) and bool(cval(c)) != b for c, b in conds(st)):
                continue
            res |= set(members(v))
        label = 'term %s.%s, name %r' % (parent, record, name)
        got = {truth(r) for r in res}
        if got and None not in got:
            obs.append(('name-match', label))
            if got != {want}:
                bad[0] = Finding('name-match', find_where(match), name, '%s: the result is %s, not %s' % (label, sorted(got), want))
        return pack(it, list(bad.values()), obs, undecided=[label + str([show(r)[:200] for r in res])] if not obs else [])

    und = []
    for r in sweep(ck, table, term_is, label=str, caps=(64, 16)):
        und += r['undecided']
    ck.notes.append('%d of %d names of the table are decided' % (len(table) - len(und), len(table)))
    if und and thorough:
        ck.notes += und[:3]

    # --------------------------------------------------------------------------------------------- all terms
    def alls(q, cap):
        f = prog.func('doc' if q.startswith('Meta') else 'terms', q)
        it = interp(cap, extra={'SectionTerm.__iter__': 'any'})
        bad, obs = {}, []

        def fail(where, what, text):
            bad.setdefault((where, what), Finding('all', where, what, '%s: %s' % (q, text)))

        n = 0
        seen = set()
        for st, k, v in it.run(f):
            if k != 'return':
                continue
            ys = [e for e in st.events if e.kind == 'YIELD' and not e.where[1].endswith('<genexp>')]
            got = [e.args[0] for e in ys]
            for e in st.events:
                if e.kind == 'BREAK':
                    fail(e.where, 'break', 'the iteration ends before all terms were seen')
                if e.kind in ('ITER', 'ITERNONE') and partial_iter(e.args[0], st):
                    fail(e.where, 'part', 'only a part is gone over (%s)' % show(e.args[0])[:60])
                if e.kind in ('ITER', 'ITERNONE') and disordered(e.args[0]):
                    fail(e.where, 'order', 'the terms are not gone over in their order (%s)' % show(e.args[0])[:60])
            its = [e for e in st.events if e.kind == 'ITER']
            for e in its:
                n += 1
                el = e.args[1]
                seen.add(kind_of(e.args[0], el))
                kd = kind_of(e.args[0], el)
                if kd in ('term', 'child', 'descendant', 'terms'):
                    c = got.count(el) + sum(1 for g in got if g[0] == 'e' and g[1] == el)
                    if c != 1:
                        fail(e.where, kd, 'a %s is given %s' % (kd, 'more than once' if c else 'not at all'))
                if kd in ('term', 'child') and not any(a.kind in ('ITER', 'ITERNONE') and any(
                        w == ('x', 'Term.descendents', (el,)) or w == ('a', el, 'descendents') or w == ('a', el, 'children')
                        for w in walk(a.args[0])) for a in st.events) and not any(
                        any(w == ('x', 'Term.descendents', (el,)) for w in walk(g)) for g in got):
                    fail(e.where, 'descendants', 'the descendants of a %s are left out' % kd)
                if kd in ('term', 'child'):
                    # the term comes before its descendants
                    first = next((i for i, g in enumerate(got) if g == el), None)
                    below = [i for i, g in enumerate(got) if g != el and has(g, el)]
                    if first is not None and below and min(below) < first:
                        fail(e.where, 'order', 'the descendants of a %s come before it' % kd)
                if kd == 'section' and not any(a.kind in ('ITER', 'ITERNONE') and a is not e and has_part(a.args[0], el) for a in st.events):
                    fail(e.where, 'section', 'the terms of a section are left out')
        if n:
            obs.append(('all', q))
        else:
            raise AnalysisError('%s goes over nothing' % q)
        return pack(it, list(bad.values()), obs)

    def has_part(v, el):
        sec = {el, ('i', el, C(1))} | ({w for w in el[1:] if isinstance(w, tuple)} if el[0] == 't' else set())
        return any(w in sec for w in walk(v) if w[0] not in ('k', 'p'))

    def kind_of(coll, el):
        ws = list(walk(coll))
        if any(w[0] == 'x' and w[1] == 'Term.descendents' or w[0] == 'a' and w[2] == 'descendents' for w in ws):
            return 'descendant'
        if any(w[0] == 'x' and w[1] == 'SectionTerm.__iter__' or w[0] == 'a' and w[2] == 'terms' for w in ws):
            return 'term'
        if any(w[0] == 'a' and w[2] == 'children' for w in ws):
            return 'child'
        if any(w[0] == 'a' and w[2] == 'sections' for w in ws):
            return 'section' if coll[0] != 'e' and not any(w[0] == 'e' for w in ws) and not any(w[0] == 'i' for w in ws) else 'term'
        return '?'

    sweep(ck, ['MetatabDoc.all_terms', 'Term.descendents'], alls, caps=(64, 16))
    f = prog.func('terms', 'SectionTerm.__iter__')
    it = interp(64)
    ok = False
    for st, k, v in it.run(f):
        for e in st.events:
            if e.kind == 'ITER' and has(e.args[0], TERMS):
                ok = True
                ys = [a for a in st.events if a.kind == 'YIELD' and a.args[0] == e.args[1]]
                if len(ys) != 1 or partial_iter(e.args[0], st) or disordered(e.args[0]):
                    ck.fail('all', e.where, 'terms', 'SectionTerm.__iter__ does not give each of the terms once, in order')
            if e.kind == 'BREAK':
                ck.fail('all', e.where, 'break', 'SectionTerm.__iter__ ends before all terms were seen')
        if isinstance(v, tuple) and has(v, TERMS):
            ok = True
            if partial_iter(v, st) or disordered(v):
                ck.fail('all', find_where(f), 'terms', 'SectionTerm.__iter__ does not give all the terms in order')
    if ok:
        ck.ob('all', 'SectionTerm.__iter__')
