"""C25 Terms and names are tied to the document they come from."""
import ast

from ..common import *
from ..total import expand, partial_iter
from . import c15

PASSES = 2      # of loop bodies

TERMS = ('Term', 'SectionTerm', 'RootSectionTerm')
SELF = ('p', 'self')
DIRS = {'dirname', 'split', 'parent', 'rpartition', 'rsplit', 'parents'}
FAILED = ('p', '@failed')
NESTED = ('p', '@nested')
SKIP, ROW = ('p', '@skip#0'), ('p', '@row#1')
ARGS = (('p', '@arg#0'), ('p', '@arg#1'))
WHAT = {'file': 'file_name', 'row': 'row', 'col': 'col'}


def leaves(v):
    return {w for w in walk(v) if w[0] in ('p', 'lv', 'u')}


def bind(prog, args, kw):
    """Arguments of the constructor of a term by name."""
    f = prog.func('metatab.terms', 'Term.__init__')
    names = f.params[1:] if f is not None else ['term', 'value', 'term_args', 'row', 'col', 'file_name', 'file_type', 'parent', 'doc']
    out = dict(zip(names, args))
    out.update(kw if isinstance(kw, dict) else dict(kw))
    return out


def is_exc(v):
    return v[0] == 'x' and v[1].startswith('exc:')


def filtered(prog, v):
    """v has an index into a sequence from which elements were left out."""
    for w in walk(v):
        if w[0] != 'o' or w[1] != 'idx':
            continue
        if partial_iter(w[2]):
            return True
        for y in walk(w[2]):
            if y[0] in ('n', 'L') and isinstance(y[-1], tuple) and len(y[-1]) >= 3:
                qual, line, col = y[-1][:3]
                for m in prog.modules.values():
                    for n in ast.walk(m.tree):
                        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and (n.lineno, n.col_offset) == (line, col) and any(
                                g.ifs for g in n.generators):
                            if any(f.qual == qual.split('.<')[0] and f.module is m for f in prog.funcs.values()):
                                return True
    return False


def run(prog, ck, thorough):
    ck.rule('directory', 'a name in an include or declare row is resolved with the directory of the document that has the row', 2)
    ck.rule('resolved', 'a relative name is resolved against the directory that is given', 2)
    ck.rule('nested', 'what is read for an include or declare row is the document that its name was resolved to', 2)
    ck.rule('located', 'a term is made with the file, row and column of its cell', 3)
    ck.rule('stored', 'a term keeps the file, row and column it was made with', 3)
    ck.rule('error', 'a failed include or declaration raises an include error with its term and the document', 3)
    ck.rule('reported', 'the listed errors have the file, row and column of the term of the error', 3)
    ck.rule('counted', 'a row generator passes on each line or row it is given as one row', 0)
    P = 'metatab.parser'

    def need(m, q):
        f = prog.func(m, q)
        if f is None:
            raise AnalysisError('there is no %s' % q)
        return f

    g = need(P, 'TermParser.generate_terms')
    ref = ('p', g.params[1])
    here = (g.module.path, g.qual, g.node.lineno)

    def is_source(v):
        return v == ref or v[0] == 'x' and v[1].split('.')[-1] in ('get_generator', 'get_row_generator') and ref in list(walk(v))

    def of_doc(v):
        """The path of the document that is read, or the name of the class of its rows."""
        return bool(leaves(v)) and leaves(v) <= {ref}

    def gen_job(kind, failed):
        def go(cap):
            made = {}

            def term_is(st, b, it):
                T, v = b.get('self'), [w for k, w in b.items() if k != 'self'][0]
                if T in made:
                    vs = it.exact(st, v)
                    a = c15.term_is_answer(kind, ('t',) + tuple(vs) if vs is not None else v)
                    if a is not None:
                        return C(a)
                return x('Term.term_is', T, v)

            def attr(b, a, st, it):
                if b in made:
                    if a in ('join', 'join_lc', 'qualified_term'):
                        return C('root.' + kind)
                    if a in ('record_term', 'record_term_lc'):
                        return C(kind)
                    if a in ('parent_term', 'parent_term_lc'):
                        return C('root')
                    if a == 'args':
                        return ('t',) + ARGS
                if is_exc(b) and a == 'term' and (b, a) not in st.heap:
                    return failed

            def ext(name, args, kw, st, it):
                if name.split('.')[-1] == 'get_generator' and not is_source(x(name, *args)) and failed == NONE:
                    fail(st, it, 'open', 'OSError', 'RowGeneratorError')
                if name in ('hasattr', 'getattr') and len(args) > 1 and args[1] == C('term') and (
                        is_exc(args[0]) or args[0][0] == 'n' and args[0][1].endswith('Error')):
                    got = st.heap.get((args[0], 'term'))
                    if got is None and is_exc(args[0]) and failed != NONE:
                        got = failed
                    if name == 'hasattr':
                        return C(got is not None)
                    return got if got is not None else args[2] if len(args) > 2 else None

            def o(ev, st, it):
                if ev.kind == 'NEW' and ROW in [y for v in list(ev.args[2]) + list(dict(ev.args[3]).values()) for y in walk(v)] and \
                        ev.args[1] in TERMS:
                    made[ev.args[0]] = True
                return ev.kind in ('NEW', 'YIELD', 'CALL', 'RAISE', 'HANDLER', 'STORE')

            at = boundaries(prog)
            at['Term.term_is'] = term_is
            inc = kind in ('include', 'declare')
            SUB = ('p', '@sub')

            def fail(st, it, what, *names):
                for nm in names if inc and it.exc else ():
                    it.exc[-1].append((st.copy(), x('exc:' + nm, C(what))))

            def finder(q):
                def go_(st, b, it):
                    if failed == NONE:
                        fail(st, it, 'find', 'IncludeError')
                    return x(q, *b.values())
                return go_

            for q in ('TermParser.find_include_doc', 'TermParser.find_declare_doc'):
                at[q] = finder(q)
            at[g.qual] = lambda st, b, it: SUB

            def hook(v, st, it):
                if is_source(v):
                    return [SKIP, ROW]
                if v == SUB:
                    fail(st, it, 'sub', *(['IncludeError'] if failed != NONE else ['OSError', 'RowGeneratorError']))
                    return [NESTED]

            it = Interp(prog, atoms=at, cap=cap, observers=[o], opaque=TERMS, attr_hook=attr, ext_hook=ext)
            it.iter_hook = hook
            cell = ('i', ROW, C(0))
            conds = {ROW: True, cell: True, op('strip', cell): True, op('startswith', op('strip', cell), C('#')): False, SKIP: False, FAILED: True, ('o', 'isnone', FAILED): False}
            findings, obs = [], []
            n = 0
            for st, k, v in it.run(g, {}, conds=conds):
                evs = list(st.events)
                news = {}
                for e in evs:
                    if e.kind == 'NEW' and e.args[1] in TERMS:
                        news[e.args[0]] = (e, bind(prog, e.args[2], e.args[3]))
                first = None        # the term of the row
                paths = set()
                for e in evs:
                    if e.kind == 'YIELD' and e.args[0] in news and e.args[0] in made or e.kind == 'CALL' and e.args[0] in (
                            'TermParser.find_include_doc', 'TermParser.find_declare_doc'):
                        if e.kind == 'YIELD':
                            first = first or e.args[0]
                        else:
                            first = first or next((w for a in e.args[1] for w in walk(a[1]) if w in made), None)
                for e in evs:
                    if e.kind != 'YIELD' or e.args[0] not in news:
                        continue
                    T = e.args[0]
                    ev, b = news[T]
                    ask = [w for w in walk(b.get('value', NONE)) if w in ARGS]
                    arg_child = T not in made
                    if arg_child and not ask:
                        continue
                    what = 'argument' if arg_child else kind
                    for nm in ('file_name', 'row', 'col'):
                        obs.append(('located', '%s of the %s' % (nm, what)))
                    n += 1
                    fn = b.get('file_name', NONE)
                    if not of_doc(fn):
                        findings.append(Finding('located', ev.where, what + ' file', 'the %s gets the file %s, which is not the path of '
                                                'the document it is in' % (what, show(fn)[:80])))
                    r = b.get('row', NONE)
                    if is_const(r) and r != C(2) or filtered(prog, r):
                        findings.append(Finding('located', ev.where, what + ' row', 'the %s in the second row of a document gets the row '
                                                'number %s' % (what, show(r)[:40])))
                    c = b.get('col', NONE)
                    want = C(1) if not arg_child else C(ARGS.index(ask[0]) + 2)
                    if is_const(c) and c != want or filtered(prog, c):
                        findings.append(Finding('located', ev.where, what + ' col', 'the %s gets the column %s instead of %s' % (
                            what if not arg_child else 'argument %d' % ARGS.index(ask[0]), show(c), show(want))))
                    if arg_child:
                        nm = b.get('term', NONE)
                        if is_const(nm) and isinstance(cval(nm), str) and cval(nm).split('.')[-1] != str(ARGS.index(ask[0])):
                            findings.append(Finding('located', ev.where, 'argument name', 'the argument %d of a row gets the name %s' % (
                                ARGS.index(ask[0]), cval(nm))))
                        if b.get('parent', NONE) != first and first is not None:
                            findings.append(Finding('located', ev.where, 'argument parent', 'the argument of a row does not belong to the '
                                                    'term of the row'))
                if kind not in ('include', 'declare'):
                    continue
                fin = 'TermParser.find_%s_doc' % kind
                docs = []
                for e in evs:
                    if e.kind != 'CALL' or e.args[0] not in ('TermParser.find_include_doc', 'TermParser.find_declare_doc'):
                        continue
                    b = [w for _, w in e.args[1]]
                    d, name = (b + [NONE] * 3)[1:3]
                    n += 1
                    docs.append(x(e.args[0], *b))
                    obs.append(('directory', '%s in %s' % (kind, e.where[1])))
                    if e.args[0] != fin:
                        findings.append(Finding('directory', e.where, kind, 'the name in a %s row is looked for with %s' % (kind, e.args[0])))
                    alts = [m for m in members(d)]
                    if not alts or any(not of_doc(m) for m in alts):
                        findings.append(Finding('directory', e.where, kind + ' dir', 'the name in a %s row is resolved in %s, which is not '
                                                'the directory of the document that has the row' % (kind, show(d)[:100])))
                    elif not any(w[0] in 'xo' and w[1].split('.')[-1] in DIRS or w[0] == 'a' and w[2] in DIRS for w in walk(d)):
                        findings.append(Finding('directory', e.where, kind + ' dir', 'the name in a %s row is resolved in %s, which is not a '
                                                'directory' % (kind, show(d)[:100])))
                    if not any(w[0] == 'a' and w[2] == 'value' and w[1] in made or w == ('i', ROW, C(1)) for w in walk(name)):
                        findings.append(Finding('directory', e.where, kind + ' name', 'what is looked for is not the value of the %s row'
                                                % kind))
                subs = [e for e in evs if e.kind == 'CALL' and e.args[0] == g.qual]
                for e in subs:
                    b = dict(e.args[1])
                    r = b.get(g.params[1], NONE)
                    obs.append(('nested', kind))
                    if docs and not any(y[0] == 'x' and y[1] == fin for y in walk(r)) and not any(
                            y[0] == 'n' for y in walk(r)):
                        findings.append(Finding('nested', e.where, kind, 'what is read for a %s row is %s, not the document that the name '
                                                'was resolved to' % (kind, show(r)[:80])))
                # errors
                if k != 'raise':
                    continue
                hs = [i for i, e in enumerate(evs) if e.kind == 'HANDLER']
                if first is None:
                    continue
                if not hs:
                    if is_exc(v) and v[2][0] in (C('find'), C('sub'), C('open')):
                        obs.append(('error', 'uncaught'))
                        findings.append(Finding('error', here, kind + ' uncaught ' + cval(v[2][0]), 'a %s in a failed %s row is raised '
                                                'without the term and the document' % (v[1][4:], kind)))
                    continue
                origin = evs[hs[0]]
                cause = origin.args[1] if len(origin.args) > 1 else None
                names = str(origin.args[0])
                if cause is None or not any(t in names for t in ('IncludeError', 'OSError', 'RowGeneratorError', 'Exception', 'GenerateError',
                                                                 'DownloadError', 'IOError', 'FileNotFoundError', 'MetatabError')):
                    continue
                if any(t in names for t in ('KeyError', 'TypeError', 'AttributeError', 'ValueError')) and 'IncludeError' not in names:
                    continue
                sub_seen = any(e.kind == 'CALL' and e.args[0] == g.qual for e in evs[:hs[0]])
                implicit = is_exc(cause)
                incl = 'IncludeError' in names or 'MetatabError' in names or not implicit
                if implicit and cause[2][0] in (C('find'), C('sub'), C('open')):
                    incl = 'IncludeError' in cause[1]
                if failed != NONE and not (sub_seen and implicit and incl):
                    continue
                if not sub_seen and not docs:
                    continue
                n += 1
                obs.append(('error', '%s, raised %s, %s' % (kind, 'in a nested document' if failed != NONE else 'by the row',
                                                            'IncludeError' if incl else 'another error')))
                cls = it.exc_class(v) if isinstance(v, tuple) else '?'
                if cls not in ('IncludeError', '?') and not (is_exc(v) and 'IncludeError' in cls):
                    findings.append(Finding('error', origin.where, kind + ' class', 'a failed %s raises %s' % (kind, cls)))
                    continue
                want = first if failed == NONE else FAILED
                got = st.heap.get((v, 'term'))
                if got is None and is_exc(v):
                    got = failed
                if got is None or any(m != want for m in members(got)):
                    findings.append(Finding('error', evs[hs[-1]].where, kind + ' term', 'the error of a failed %s %s has the term %s' % (
                        kind, 'in a nested document' if failed != NONE else 'row', show(got)[:60] if got is not None else 'nothing')))
                src = [e for e in evs if e.kind == 'NEW' and e.args[0] == v]
                told = any(leaves(w) == {ref} and w[0] in 'ax' and w != ref for e in src for a in e.args[2] for w in walk(a)) or any(
                    e.kind == 'STORE' and e.args[0] == v and e.args[1] in ('args', 'message') and any(
                        leaves(w) == {ref} for w in walk(e.args[2])) for e in evs)
                if not told:
                    findings.append(Finding('error', evs[hs[-1]].where, kind + ' document', 'the error of a failed %s does not name the '
                                            'document that has the row' % kind))
            if not n:
                raise AnalysisError('generate_terms does nothing with a %s row' % kind)
            return pack(it, findings, obs)
        return go

    jobs = []
    for kind in ('row', 'include', 'declare'):
        for failed in (NONE, FAILED) if kind != 'row' else (NONE,):
            jobs.append(('generate %s %s' % (kind, show(failed)), gen_job(kind, failed)))

    def simple(inline=(), kinds=('CALL', 'XCALL', 'STORE', 'ITER', 'EMIT', 'MUT', 'KEY', 'COND', 'HANDLER', 'BREAK', 'LOOPRETURN', 'NEW'), **kw):
        def mk(cap):
            return Interp(prog, atoms=boundaries(prog, inline=inline), cap=cap, observers=[lambda e, st, it: e.kind in kinds],
                          comp_paths=True, merge_calls=False, **kw)
        return mk

    # ---- finding the document
    def find_job(q):
        f = need(P, q)

        def go(cap):
            it = simple()(cap)
            findings, obs = [], []
            truth = it.truth
            it.truth = lambda st, v: True if v[0] == 'x' and v[1].split('.')[-1] in ('realpath', 'abspath', 'join') else truth(st, v)
            d, name = ('p', f.params[1]), ('p', f.params[2])
            at_ = (f.module.path, f.qual, f.node.lineno)
            n = 0
            tested = False
            firsts = {'an existing path': [], 'a standard declaration': []}     # does it depend on what is in the directory?
            looked = set()      # how the names that are looked for in the directory are made: 'plain', 'extension', 'unknown'
            for st, k, v in it.run(f):
                for c in list(st.conds) + [e.args[0] for e in st.events if e.kind == 'COND']:
                    if c[0] == 'x' and c[1].split('.')[-1] in ('exists', 'isfile', 'is_file') and d in list(walk(c)):
                        ws = [w for w in walk(c)]
                        if name not in ws or any(w[0] in ('phi', 'e', 'i', 'u', 'lv', 'n') for w in ws):
                            looked.add('unknown')
                        else:
                            looked.add('extension' if any(is_const(w) and isinstance(cval(w), str) and 'csv' in cval(w).lower()
                                                          for w in ws) else 'plain')
                if k == 'raise':
                    continue
                n += 1
                obs.append(('resolved', '%s: a path' % q))
                cs = list(st.conds.items()) + [(e.args[0], e.args[1]) for e in st.events if e.kind == 'COND']
                subs = list(expand(it, st, v))
                web = any(b and c[0] == 'o' and c[1] == 'startswith' and name in list(walk(c)) for c, b in cs)
                exact = any(b and c[0] == 'x' and c[1].split('.')[-1] in ('isabs',) for c, b in cs)
                filled = {e.args[0] for e in st.events if e.kind == 'EMIT'}
                if q != 'TermParser.find_include_doc':
                    ex = [(list(walk(c)), b) for c, b in cs if c[0] == 'x' and c[1].split('.')[-1] in ('exists', 'isfile', 'is_file')]
                    after_d = any(not b and d in ws for ws, b in ex) and not any(b and d in ws for ws, b in ex)
                    if d not in subs and any(y[0] == 'x' and y[1].split('.')[-1] == 'declaration_path' for y in subs):
                        firsts['a standard declaration'].append(after_d)
                    elif d not in subs and name in subs and any(b and name in ws and d not in ws for ws, b in ex):
                        firsts['an existing path'].append(after_d)
                if any(y[0] == 'i' and y[1][0] == 'n' and is_const(y[2]) for y in subs) or any(not b and c in filled for c, b in cs):
                    continue
                if name not in subs:
                    findings.append(Finding('resolved', at_, q, 'what is returned does not depend on the name'))
                    continue
                if q == 'TermParser.find_include_doc':
                    if d not in subs and not web and not exact:
                        findings.append(Finding('resolved', at_, q, 'a relative name is not resolved against the directory of the document'))
                else:
                    found = [c for c, b in cs if b and c[0] == 'x' and c[1].split('.')[-1] in ('exists', 'isfile') and d in list(walk(c))]
                    if found:
                        tested = True
                        early = any(b and name in ws and d not in ws for ws, b in ex) or any(
                            y[0] == 'x' and y[1].split('.')[-1] == 'declaration_path' for y in subs)
                        if d not in subs and not early:
                            findings.append(Finding('resolved', at_, q, 'a declaration document that is in the directory of the document is '
                                                    'not the one that is used'))
                    elif not any(c[0] == 'x' and c[1].split('.')[-1] in ('exists', 'isfile') and d in list(walk(c)) for c, b in cs):
                        pre = any(b and c[0] == 'x' and c[1].split('.')[-1] in ('exists', 'isfile') and name in list(walk(c)) for c, b in cs)
                        std = any(y[0] == 'x' and y[1].split('.')[-1] == 'declaration_path' for y in subs)
                        seen = any(e.kind in ('EMIT', 'ITER') and any(isinstance(a, tuple) and d in list(walk(a)) for a in e.args[:2])
                                   for e in st.events)
                        if not pre and not std and not web and not seen and d not in subs:
                            findings.append(Finding('resolved', at_, q, 'a declaration document is not looked for in the directory of the '
                                                    'document'))
                    if d in subs:
                        tested = True
            if not n:
                raise AnalysisError('%s never returns' % q)
            if q != 'TermParser.find_include_doc' and looked and 'unknown' not in looked:
                for w, text in (('plain', 'under its name'), ('extension', 'under its name with .csv added')):
                    if w not in looked:
                        findings.append(Finding('resolved', at_, q, 'a declaration document is not looked for in the directory of the '
                                                'document %s' % text))
            for what, ds in firsts.items():
                if ds and all(ds):
                    findings.append(Finding('resolved', at_, q, '%s is only used when there is nothing of that name in the directory of '
                                            'the document' % what))
            if q != 'TermParser.find_include_doc' and not tested:
                findings.append(Finding('resolved', at_, q, 'a declaration document is not looked for in the directory of the document'))
            return pack(it, findings, obs)
        return go

    jobs.append(('find_include_doc', find_job('TermParser.find_include_doc')))
    jobs.append(('find_declare_doc', find_job('TermParser.find_declare_doc')))

    # ---- terms
    def store_job(q, inline):
        f = need('metatab.terms', q)

        def go(cap):
            it = simple(inline, ('STORE',))(cap)
            findings, obs = [], []
            at_ = (f.module.path, f.qual, f.node.lineno)
            n = 0
            for st, k, v in it.run(f):
                if k == 'raise':
                    continue
                n += 1
                for nm in ('row', 'col', 'file_name'):
                    if nm not in f.params:
                        continue
                    obs.append(('stored', '%s: %s' % (q, nm)))
                    got = st.heap.get((SELF, nm))
                    p = ('p', nm)
                    if got is None:
                        findings.append(Finding('stored', at_, nm, '%s of a new term is not set' % nm))
                        continue
                    cs = st.conds
                    empty = cs.get(p) is False or cs.get(('o', 'isnone', p)) is True
                    for m in members(got):
                        if nm == 'file_name':
                            if p not in list(walk(m)) and not (empty or is_const(m) and len(members(got)) > 1):
                                findings.append(Finding('stored', at_, nm, 'the file of a new term is %s' % show(m)[:60]))
                        elif m != p and not (m == op('int', p) or m[0] == 'x' and m[1] == 'int' and p in m[2]):
                            findings.append(Finding('stored', at_, nm, 'the %s of a new term is %s' % (nm, show(m)[:60])))
            if not n:
                raise AnalysisError('%s never returns' % q)
            return pack(it, findings, obs)
        return go

    jobs.append(('Term.__init__', store_job('Term.__init__', ())))
    jobs.append(('SectionTerm.__init__', store_job('SectionTerm.__init__', ('Term.__init__',))))
    jobs.append(('RootSectionTerm.__init__', store_job('RootSectionTerm.__init__', ('Term.__init__', 'SectionTerm.__init__'))))

    def keep_job(m, q):
        f = need(m, q)

        def go(cap):
            it = simple((), ('STORE',))(cap)
            findings, obs = [], [('stored', '%s: no change' % q)]
            for st, k, v in it.run(f):
                for e in st.events:
                    if e.args[1] in ('row', 'col', 'file_name') and e.args[0][0] != 'n':
                        t = it.typeof(st, e.args[0])
                        if t in (None,) + TERMS and e.args[0] != SELF or f.qual.split('.')[0] in TERMS:
                            findings.append(Finding('stored', e.where, e.args[1], '%s changes the %s of a term' % (q, e.args[1])))
            return pack(it, findings, obs)
        return go

    for m, q in ((P, 'TermParser.__iter__'), ('metatab.doc', 'MetatabDoc.load_terms'), ('metatab.doc', 'MetatabDoc.add_term'),
                 ('metatab.doc', 'MetatabDoc.add_section'), ('metatab.terms', 'Term.add_child'), ('metatab.terms', 'SectionTerm.add_term'),
                 ('metatab.terms', 'SectionTerm.move_term')):
        jobs.append(('keep ' + q, keep_job(m, q)))

    # ---- reports
    def report_job(cap):
        f = need(P, 'TermParser.errors_as_dict')
        it = simple()(cap)
        findings, obs = [], []
        at_ = (f.module.path, f.qual, f.node.lineno)
        n = 0
        for st, k, v in it.run(f):
            if k == 'raise':
                continue
            evs = list(st.events)
            loops = [e for e in evs if e.kind == 'ITER' and any(w[0] == 'e' and w[1] == ('a', SELF, 'errors') for w in walk(e.args[1]))]
            if not loops:
                continue
            e = next(w for w in walk(loops[0].args[1]) if w[0] == 'e' and w[1] == ('a', SELF, 'errors'))
            for lp in loops:
                if partial_iter(lp.args[0], st):
                    findings.append(Finding('reported', lp.where, 'part', 'not all of the errors are reported'))
            if any(h.kind in ('BREAK', 'LOOPRETURN') for h in evs):
                findings.append(Finding('reported', loops[0].where, 'part', 'not all of the errors are reported'))
            T = ('a', e, 'term')
            cs = st.conds
            if cs.get(T) is False or cs.get(('o', 'isnone', T)) is True:
                continue
            dicts = [w for w in expand(it, st, v) if w[0] == 'n' and w[1] == 'dict']
            n += 1
            vals = {}
            for dct in dicts:
                for key in ('file', 'row', 'col', 'term', 'error'):
                    for hk, hv in st.heap.items():
                        if hk[0] == dct and len(hk) == 3 and hk[2] == C(key):
                            vals.setdefault(key, []).append(hv)
            if not dicts and T not in list(expand(it, st, v)):
                findings.append(Finding('reported', at_, 'missing', 'an error is not reported'))
                continue
            every = list(expand(it, st, v))
            for key, a in WHAT.items():
                obs.append(('reported', key))
                got = vals.get(key)
                if not vals and any(w == ('a', T, a) for w in every):
                    continue
                if not got:
                    findings.append(Finding('reported', at_, key, 'the %s of an error is not reported' % key))
                elif not any(w in (('a', T, a), x('getattr', T, C(a))) for g_ in got for w in walk(g_)):
                    findings.append(Finding('reported', at_, key, 'what is reported as the %s of an error is %s' % (key, show(got[0])[:60])))
            got = vals.get('error')
            if not vals and e in every:
                continue
            if not got or not any(e in list(walk(g_)) for g_ in got):
                findings.append(Finding('reported', at_, 'error', 'the message of an error is not reported'))
        if not n:
            findings.append(Finding('reported', at_, 'missing', 'the errors are not reported'))
        return pack(it, findings, obs)

    jobs.append(('errors_as_dict', report_job))

    # ---- the rows that are counted
    def count_job(qual):
        def go(cap):
            f = prog.func('metatab.rowgen', qual)
            findings, obs = [], []
            if f is None:
                return pack(simple()(cap), findings, obs)
            it = simple(kinds=('ITER', 'ITEREND', 'BREAK', 'YIELD', 'MUT', 'COND', 'EMIT'))(cap)
            for st, k, v in it.run(f):
                if k == 'raise':
                    continue
                evs = list(st.events)
                for i, e in enumerate(evs):
                    if e.kind != 'ITER' or e.args[2] == 'comp' or not any(w[0] == 'a' and w[1] == SELF for w in walk(e.args[0])):
                        continue
                    obs.append(('counted', '%s line %d' % (qual, e.where[2])))
                    end = next((j for j in range(i + 1, len(evs)) if evs[j].kind in ('ITEREND', 'BREAK') and evs[j].args[1] == e.args[1]), len(evs))
                    ys = [h for h in evs[i:end] if h.kind == 'YIELD']
                    puts = [h for h in evs[i:end] if h.kind == 'MUT' and h.args[1] == 'append']
                    if partial_iter(e.args[0], st):
                        findings.append(Finding('counted', e.where, 'part', 'only some of the rows are passed on, so the others are not counted'))
                    elif not ys and not puts:
                        findings.append(Finding('counted', e.where, 'skip', 'a row is not passed on, so it is not counted and the terms '
                                                'after it get the wrong row'))
                    elif len(ys) > 1:
                        findings.append(Finding('counted', ys[1].where, 'twice', 'a line is passed on as more than one row, so the terms '
                                                'after it get the wrong row'))
                    break
            return pack(it, findings, obs)
        return go

    for q in ('TextRowGenerator.__iter__', 'MetatabRowGenerator.__iter__'):
        jobs.append(('count ' + q, count_job(q)))
    sweep(ck, jobs, lambda item, cap: item[1](cap), label=lambda j: j[0], caps=(2000, 400), limit=200)
