"""C12 Include and declaration cycles end in an error."""
from ..common import *

MAKERS = {'MetatabDoc', 'TermParser'}
LOADERS = ('MetatabDoc.load_declarations', 'MetatabDoc.load_terms', 'MetatabDoc.load_rows', 'MetatabDoc.__init__',
           'TermParser.__init__')
COPIES = {'tuple', 'list', 'set', 'frozenset', 'sorted', 'copy', '.copy', 'copy.copy', 'dict', '.union', 'union'}


def subst(v, a, b):
    """v with a replaced by b."""
    if v == a:
        return b
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'phi':
        return phi([subst(m, a, b) for m in v[1]])
    return tuple(subst(w, a, b) if isinstance(w, tuple) else w for w in v)


def parts(it, st, v, seen=()):
    """What a collection holds: the collections it was made from as a whole, and its single elements."""
    whole, single = set(), set()
    if v in seen:
        return whole, single
    seen = seen + (v,)

    def add(w):
        a, b = parts(it, st, w, seen)
        whole.update(a)
        single.update(b)

    for m in members(v):
        if m[0] == 't':
            for e in m[1:]:
                if e[0] == 'o' and e[1] in ('*', 'star'):
                    add(e[2])
                else:
                    single.add(e)
        elif m[0] == 'o' and m[1] in ('+', '|', '#concat', 'BitOr', 'Add', 'union'):
            for e in m[2:]:
                if isinstance(e, tuple):
                    add(e)
        elif m[0] == 'x' and (m[1] in COPIES or m[1].split('.')[-1] in ('union', 'copy', 'chain')):
            for e in m[2]:
                add(e)
        elif m[0] == 'n':
            for k, w in list(st.heap.items()):
                if k[0] != m:
                    continue
                if k[1] == '#seq' and isinstance(w, tuple):
                    ws = w[1:] if w and w[0] == 't' else w
                    for e in ws:
                        if isinstance(e, tuple):
                            single.add(e)
                elif k[1] in ('#concat', '#setop') and isinstance(w, tuple):
                    ws = w if w and not isinstance(w[0], str) else w[1:]
                    for e in ws:
                        if isinstance(e, tuple):
                            add(e)
                elif k[1] in ('[]', '#keys') or k[1] == '[k]':
                    for e in members(w):
                        if e[0] in ('e', 'k'):
                            whole.add(e[1])
                        single.add(e)
            whole.add(m)
        else:
            whole.add(m)
    return whole, single


def mentions(v, w):
    return any(y == w for y in walk(v))


NORMAL = {'realpath', 'normpath', 'abspath', 'resolve', 'samefile'}


def calls_in(f):
    import ast
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            out.append(n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', ''))
    return out


def bare(v, d):
    """d occurs in v outside of what puts a path in normal form."""
    if v == d:
        return True
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] in ('x', 'o', 'm') and isinstance(v[1], str) and v[1].rsplit('.', 1)[-1] in NORMAL:
        return False
    for w in v[1:]:
        if isinstance(w, tuple) and (bare(w, d) if w and isinstance(w[0], str) else any(isinstance(y, tuple) and bare(y, d)
                                                                                       for y in w)):
            return True
        if isinstance(w, frozenset) and any(bare(y, d) for y in w):
            return True
    return False


def run(prog, ck, thorough):
    ck.rule('checked', 'a document is included only on paths on which it was found not to be among the documents that are '
                       'including it', 2)
    ck.rule('passed-on', 'the documents that are including this one, and this one, are passed on to the included document', 2)
    ck.rule('same-key', 'what is looked up for an included document is what was recorded for the documents including it', 2)
    ck.rule('rejected', 'an included document that is among the documents including it ends in an include error', 0)
    ck.rule('nested-doc', 'no function that is part of parsing a document starts to load another one without the documents that '
                          'are including it', 10)
    ck.rule('canonical', 'different spellings of the path of a document are one document: the path of an included document, '
                         'relative to the one including it, is in normal form', 1)
    cls = next((c for c in prog.classes.values() if c.name == 'TermParser'), None)
    if cls is None:
        raise AnalysisError('there is no class TermParser')
    gen = prog.func('metatab.parser', 'TermParser.generate_terms')
    at = boundaries(prog)

    def job(f, cap):
        findings, obs = [], []
        refp = ('p', f.params[1] if len(f.params) > 1 else '?')
        selfp = ('p', f.params[0])
        source = lambda st: any(b and k[0] == 'o' and k[1] == 'isinstance' and k[2] == refp for k, b in st.conds.items())

        def o(ev, st, it):
            if ev.kind == 'ITEREND' and any(y == refp for y in walk(ev.args[0])) and looping(st):
                findings.append(Finding('rejected', ev.where, 'loop', 'when a document is already being included, %s goes on '
                                        'without an error' % f.qual))
            if ev.kind in ('RAISE', 'COND', 'MUT', 'ITEREND', 'ITERNONE'):
                return True
            if ev.kind != 'CALL' or ev.args[0] != f.qual:
                return
            bound = dict(ev.args[1])
            R = bound.get(f.params[1], NONE)
            # What the ancestors are kept in: a parameter that is passed on, or an attribute of the parser
            ins, none = [], []
            for k, b in st.conds.items():
                if k[0] == 'o' and k[1] == 'in' and mentions_doc(k[2], R):
                    ins.append((k[2], k[3], b))
            # a comparison with every element of the ancestors, or there are none
            for i, e in enumerate(st.events):
                if e.kind == 'ITEREND' and e.args[1][0] in ('e', 'k'):
                    for k, b in st.conds.items():
                        if k[0] == 'o' and k[1] in ('==', 'is') and b is False:
                            for u, w in ((k[2], k[3]), (k[3], k[2])):
                                if mentions_doc(u, R) and w == e.args[1]:
                                    ins.append((u, w[1], False))
                elif e.kind == 'ITERNONE':
                    none.append(e.args[0])
                elif e.kind == 'COND' and e.args[0][0] == 'x' and e.args[0][1] in ('any', 'all'):
                    z = e.args[0][2][0] if e.args[0][2] else NONE
                    if z[0] == 'o' and z[1] == ('==' if e.args[0][1] == 'any' else '!='):
                        for u, q in ((z[2], z[3]), (z[3], z[2])):
                            if mentions_doc(u, R) and q[0] in ('e', 'k'):
                                ins.append((u, q[1], e.args[1] if e.args[0][1] == 'any' else not e.args[1]))
            what = 'an included document'
            obs.append(('checked', show(R)[:90]))
            good = []
            for K, S, b in ins:
                whole, single = parts(it, st, S)
                pas = [w for w in whole if w[0] == 'p' and w[1] in bound and w != refp]
                ats = [w for w in whole if w[0] == 'a' and w[1] == selfp]
                if b is False and (pas or ats):
                    good.append((K, pas, ats))
            if not good and any(w == ('p', n) and w != refp for S in none for w in parts(it, st, S)[0] for n in bound):
                return      # nothing is including this document
            if not good:
                findings.append(Finding('checked', ev.where, what, '%s: a document is included without looking whether it is '
                                        'among the documents that are including it' % f.qual, it.chain()))
                return
            obs.append(('passed-on', show(R)[:90]))
            okp = oks = False
            for K, pas, ats in good:
                for a in pas:
                    for m in members(bound[a[1]]):
                        whole, single = parts(it, st, m)
                        if a not in whole:
                            continue
                        okp = True
                        if same(K, single, R, st):
                            oks = True
                for a in ats:
                    okp = True
                    for e in st.events:
                        if e.kind == 'MUT' and e.args[0] == a and e.args[1] in ('append', 'add', 'update', 'extend', '[]='):
                            for v in e.args[3]:
                                if same(K, {v}, R, st):
                                    oks = True
            if not okp:
                findings.append(Finding('passed-on', ev.where, what, '%s: the documents that are including this one are not '
                                        'passed on to the document it includes' % f.qual, it.chain()))
                return
            obs.append(('same-key', show(good[0][0])[:90]))
            if not oks:
                findings.append(Finding('same-key', ev.where, what, '%s: what is looked up for an included document (%s) is not '
                                        'what is recorded for the including ones' % (f.qual, show(good[0][0])), it.chain()))

        def looping(st):
            """Conditions that hold when the document to include is among those including it."""
            return [k for k, b in st.conds.items() if b and (
                k[0] == 'o' and k[1] in ('in', '==') or k[0] == 'x' and k[1] == 'any') and any(
                    y[0] == 'x' and y[1].startswith('TermParser.find_') for y in walk(k)) and any(
                    y[0] == 'p' and y not in (refp, selfp) for y in walk(k))]

        def mentions_doc(K, R):
            """K is derived from the document R, or from what R is made from."""
            if mentions(K, R):
                return True
            subs = {y for y in walk(R) if y[0] == 'x' and (y[1].startswith('TermParser.find_') or y[1].startswith('.get_'))}
            return any(y in subs for y in walk(K))

        def same(K, single, R, st):
            for e in single:
                if e == K:
                    return True
                if mentions(e, refp):
                    if source(st):
                        if subst(e, refp, R) == K:
                            return True
                    else:
                        if any(subst(e, refp, y) == K for y in walk(K)):
                            return True
            return False

        it = Interp(prog, atoms=at, cap=cap, observers=[o])
        for st, kind, v in it.run(f):
            loops = looping(st)
            if loops:
                obs.append(('rejected', show(loops[0])[:80]))
                r = [e for e in st.events if e.kind == 'RAISE']
                if kind != 'raise' or not r or not any('IncludeError' in str(e.args[0]) for e in r):
                    findings.append(Finding('rejected', (f.module.path, f.qual, f.node.lineno), 'loop', 'when a document is '
                                            'already being included, %s %s' % (f.qual, 'raises something else' if kind == 'raise'
                                                                               else 'goes on without an error')))
        return pack(it, findings, obs)

    sweep(ck, [gen], job, label=lambda f: f.qual, must=(gen.qual,), caps=(256, 64))

    # The path of an included document does not grow with every turn of a loop
    finders = [f for f in base(prog) if f.qual in ('TermParser.find_include_doc', 'TermParser.find_declare_doc')]
    keyed = any(n.rsplit('.', 1)[-1] in NORMAL for n in calls_in(gen))

    def canonical(f, cap):
        findings, obs = [], []
        d = ('p', f.params[1]) if len(f.params) > 1 else None
        it = Interp(prog, atoms=at, cap=cap)
        for st, kind, v in it.run(f):
            if kind == 'raise' or v is None:
                continue
            for m in members(v):
                if d in walk(m):
                    obs.append(('canonical', '%s: %s' % (f.qual, show(m)[:80])))
                    if not keyed and bare(m, d):
                        findings.append(Finding('canonical', (f.module.path, f.qual, f.node.lineno), 'path', '%s: the path of an '
                                                'included document is the path of the including one with a relative path added '
                                                '(%s), so a loop does not come back to the same path' % (f.qual, show(m)[:100])))
        return pack(it, findings, obs)

    sweep(ck, finders, canonical, label=lambda f: f.qual)

    # Other ways to start loading a document while one is parsed
    sources = [c for c in prog.classes.values() if c.module.name.startswith('metatab') and (
        c is cls or c.module.name == 'metatab.rowgen' or any(getattr(b, 'id', getattr(b, 'attr', '')) == 'Source'
                                                             for b in c.node.bases))]
    fs = []
    for f in entries(prog, private=True):
        if f.cls is not None and any(f.cls is c or f.qual.split('.')[0] == c.name for c in sources):
            if f.qual.split('.')[-1] not in ('register_term_class', 'unregister_term_class'):
                fs.append(f)

    def nested(f, cap):
        findings, obs = [], []

        def o(ev, st, it):
            if ev.kind == 'NEW' and ev.args[1] in MAKERS:
                args = list(ev.args[2]) + [v for k, v in ev.args[3]]
                if not args or all(is_const(a) for a in args):
                    return
                findings.append(Finding('nested-doc', ev.where, ev.args[1], '%s starts to load another document with a new %s, '
                                        'which does not know the documents that are including this one' % (
                                            ev.where[1], ev.args[1]), it.chain()))
            elif ev.kind == 'CALL' and ev.args[0] in LOADERS[:3]:
                findings.append(Finding('nested-doc', ev.where, ev.args[0], '%s starts to load another document with %s, which '
                                        'does not know the documents that are including this one' % (
                                            ev.where[1], ev.args[0]), it.chain()))

        it = Interp(prog, atoms=at, cap=cap, observers=[o], opaque=('MetatabDoc', 'TermParser'))
        it.run(f)
        obs.append(('nested-doc', f.qual))
        return pack(it, findings, obs)

    sweep(ck, fs, nested, label=lambda f: f.qual)
