"""C11 Load failures always surface."""
import ast

from ..common import *
from ..total import Path, KINDS

TERMS = {'Term', 'SectionTerm', 'RootSectionTerm'}
EXITS = {'', 'BaseException', 'KeyboardInterrupt', 'SystemExit', 'GeneratorExit'}
# what a failing load raises
FAILURES = {'Exception', 'OSError', 'IOError', 'EnvironmentError', 'FileNotFoundError', 'PermissionError', 'IsADirectoryError',
            'NotADirectoryError', 'ConnectionError', 'TimeoutError', 'UnicodeError', 'UnicodeDecodeError', 'ValueError',
            'MetatabError', 'IncludeError', 'ParserError', 'DeclarationError', 'GenerateError', 'ReferenceError', 'SourceError',
            'RowGeneratorError', 'DownloadError', 'AppUrlError', 'FormatError', 'ConversionError', 'RuntimeError', 'RecursionError',
            'YAMLError', 'Error'} | EXITS
LOOKUP = {'KeyError', 'LookupError', 'TypeError', 'AttributeError', 'AssertionError', 'IndexError'}
CORE = {'TermParser.generate_terms', 'rec:TermParser.generate_terms', 'TermParser.__iter__', 'MetatabDoc.load_terms',
        'MetatabDoc.load_declarations', 'MetatabDoc.load_rows', 'TermParser.manage_declare_terms', 'TermParser.add_declared_term',
        'TermParser.add_declared_section', 'TermParser.add_value_set_value', 'TermParser.inherited_children'}
LOADQ = CORE | {'MetatabDoc.__init__', 'TermParser.__init__', 'TermParser.find_declare_doc', 'TermParser.find_include_doc',
                'WebResolver.find_decl_doc', 'WebResolver.get_row_generator', 'WebResolver.fetch_row_source',
                'MetatabDoc._load_declare_dict', 'TermParser.declare_dict', 'YamlMetatabSource.__iter__',
                'MetatabRowGenerator.__iter__', 'TextRowGenerator.__iter__', 'TextRowGenerator.__init__', 'YamlMetatabSource.yield_dict',
                'YamlMetatabSource.__init__', 'MetatabRowGenerator.__init__', 'MetatabUrl.doc', 'MetatabUrl.get_resource',
                'MetatabUrl.generator'}
LOADX = {'get_generator', 'get_resource', 'get_target', 'safe_load', 'load', 'get_row_generator', 'urlopen', 'download'}
READ = {'open', 'read', 'read_text', 'readlines', 'read_bytes', 'reader'}
# modules whose files are documents
LOADMODS = ('parser.py', 'rowgen.py', 'doc.py', 'resolver.py', 'appurl.py')


def load_work(c, path):
    if c.startswith('iterate:'):
        c = c[8:]
        return c in LOADQ or c.split('.')[-1] in LOADX
    if c in LOADQ:
        return True
    last = c.split('.')[-1]
    return last in LOADX or last in READ and path.endswith(LOADMODS)


def names(types):
    return [t.split('.')[-1] for t in types]


def run(prog, ck, thorough):
    ck.rule('swallow', 'no handler around the loading of a document lets a failure pass without an error', 1)
    ck.rule('interrupt', 'no handler swallows an interrupt or an exit request', 0)
    ck.rule('resolved', 'the functions that find a document return one or raise an error', 1)
    ck.rule('included', 'an include or declaration is read, or the load fails', 1)
    ck.rule('listed', 'an include error is added to the errors of the parser before it propagates', 1)
    ck.rule('parent', 'a term becomes a child of the term that it names as its parent, or the load fails', 1)
    ck.rule('section', 'a term that is declared in a section that was not declared fails the load', 1)
    ck.rule('unreadable', 'a file that cannot be read is not taken for the text of a document', 0)
    at = boundaries(prog, inline=['err'])
    at.pop('err', None)
    G = {}
    for m, q in (('metatab.parser', 'TermParser.generate_terms'), ('metatab.parser', 'TermParser.__iter__'),
                 ('metatab.parser', 'TermParser.find_declare_doc'), ('metatab.parser', 'TermParser.find_include_doc'),
                 ('metatab.resolver', 'WebResolver.find_decl_doc'), ('metatab.resolver', 'WebResolver.get_row_generator'),
                 ('metatab.util', 'declaration_path'), ('metatab.parser', 'TermParser.add_declared_term'),
                 ('metatab.parser', 'TermParser.inherited_children'), ('metatab.rowgen', 'TextRowGenerator.__init__')):
        G[q] = prog.func(m, q)

    LOADERS = ('MetatabDoc.load_terms', 'MetatabDoc.load_declarations', 'MetatabDoc.load_rows')

    def loads(q):
        def atom(st, b, it):
            # a load that fails may have added terms, sections and declarations
            for k in [k for k in st.heap if k[0] == b.get('self') and k[1] in (
                    'terms', 'sections', 'decl_terms', 'decl_sections', 'errors', 'super_terms', 'derived_terms')]:
                del st.heap[k]
            return x(q, *b.values())
        return atom

    at_sweep = dict(at, **{q: loads(q) for q in LOADERS if q in at})

    def sweep_job(f, cap):
        findings, obs = [], []
        seen = set()

        def o(ev, st, it):
            if ev.kind != 'HSWALLOW':
                return False
            return True

        it = Interp(prog, atoms=at_sweep, cap=cap, observers=[o], loop_passes=2)
        for st, kind, v in it.run(f):
            if kind == 'raise':
                continue
            for ev in st.events:
                types, called = names(ev.args[0]), ev.args[1]
                k = (ev.where, tuple(types))
                if k in seen:
                    continue
                seen.add(k)
                if set(types) & EXITS:
                    findings.append(Finding('interrupt', ev.where, 'handler', '%s: a handler for %s goes on without an error, so an '
                                            'interrupt or exit request is lost' % (ev.where[1], ', '.join(types) or 'everything')))
                    continue
                work = {c for c in called if load_work(c, ev.where[0])}
                if not work:
                    continue
                obs.append(('swallow', '%s line %d: handler for %s' % (ev.where[1], ev.where[2], ', '.join(types))))
                if work <= {'declaration_path'} or ev.where[1].startswith('TextRowGenerator.__init__'):
                    continue
                if ev.where[1].startswith('md5_file'):
                    continue
                hit = set(types) & FAILURES
                if not hit and set(types) & LOOKUP and (work & CORE or any(c.startswith('iterate:') for c in work)):
                    hit = set(types) & LOOKUP
                if hit:
                    findings.append(Finding('swallow', ev.where, 'handler', '%s: a handler for %s around %s goes on without an error'
                                            % (ev.where[1], ', '.join(sorted(hit)), ', '.join(sorted(work))[:120])))
        return pack(it, findings, obs)

    sweep(ck, entries(prog, True), sweep_job, label=lambda f: f.qual, caps=(200, 24))

    sub = {'TermParser.generate_terms', 'rec:TermParser.generate_terms'}

    def is_nested(v):
        return any(w[0] == 'x' and w[1] in sub for w in walk(v))

    def job(qual, cap):
        f = G[qual]
        findings, obs = [], []
        here = (f.module.path, f.qual, f.node.lineno)
        guarded = []

        def bad(rule, construct, text, where=None):
            findings.append(Finding(rule, where or here, construct, '%s: %s' % (qual, text)))

        def ob(rule, what):
            obs.append((rule, '%s: %s' % (qual, what)))

        def track(ev, st, it):
            if qual == 'TermParser.__iter__' and ev.kind in ('ITER', 'ITERNONE') and is_nested(ev.args[0]):
                guarded.append((ev.where, [t for ts in it.tries for t in names(ts)]))
            return ev.kind in KINDS or ev.kind in ('CALL', 'HSWALLOW')

        it = Interp(prog, atoms=at, cap=cap, observers=[track], comp_paths=True, merge_calls=False,
                    opaque=TERMS if qual == 'TermParser.generate_terms' else ())
        ps = []
        for st, k, v in it.run(f):
            p = Path(it, st, k, v)
            p.events = list(st.events)
            ps.append(p)
        self_ = ('p', f.params[0]) if f.params else None

        if qual in ('TermParser.find_declare_doc', 'TermParser.find_include_doc', 'WebResolver.find_decl_doc', 'declaration_path',
                    'WebResolver.get_row_generator'):
            ob('resolved', '%d paths' % len(ps))
            for p in ps:
                if p.kind != 'return':
                    continue
                v = p.v if isinstance(p.v, tuple) else NONE
                none = NONE in members(v) and p.st.conds.get(('o', 'isnone', v)) is not False and p.st.conds.get(v) is not True
                if none or v[0] == 'x' and v[1].split('.')[-1] == 'parse_app_url' and v[2] and NONE in members(v[2][0]) and \
                        p.st.conds.get(v[2][0]) is not True:
                    bad('resolved', 'none', 'returns nothing when there is no such document, instead of raising an error')
                    break
                if v[0] == 'x' and v[1].split('.')[-1] == 'get_generator' and p.st.conds.get(v) is False:
                    bad('resolved', 'none', 'returns a generator that is not one')
                    break

        elif qual == 'TermParser.generate_terms':
            for p in ps:
                if p.kind == 'raise':
                    continue
                inc = [c for c, b in p.conds() if b and c[0] == 'x' and c[1].endswith('.term_is') and len(c[2]) > 1 and is_const(c[2][1])
                       and str(cval(c[2][1])).lower().split('.')[-1] in ('include', 'declare') and c[2][0][0] == 'n']
                if not inc:
                    continue
                ob('included', 'a path of an include or declaration')
                if not any(e.kind in ('ITER', 'ITERNONE', 'ITERATE', 'YIELD') and is_nested(e.args[0]) for e in p.events):
                    w = [e.where for e in p.events if e.kind in ('HSWALLOW', 'YIELD')]
                    bad('included', 'skip', 'an include or declaration is passed over without reading its document',
                        w[-1] if w else None)

        elif qual == 'TermParser.__iter__':
            catch = {'IncludeError', 'MetatabError', 'Exception', 'BaseException', ''}
            for where, types in guarded:
                ob('listed', 'terms of the document, line %d' % where[2])
                if not set(types) & catch:
                    bad('listed', 'try', 'the terms of the document are read where an include error is not caught and listed', where)
            ok = False
            for p in ps:
                hs = [e for e in p.events if e.kind == 'HANDLER']
                if p.kind == 'raise' and hs and set(names(hs[-1].args[0])) & catch and not any(
                        e.kind == 'RAISE' for e in p.events[:p.events.index(hs[-1])] if 'ParserError' in str(e.args)):
                    i = p.events.index(hs[-1])
                    put = [e for e in p.events[i:] if e.kind == 'MUT' and e.args[0] == ('a', self_, 'errors') and e.args[1] in (
                        'add', 'append', 'update', 'extend', '|=', '+=')]
                    ob('listed', 'handler at line %d' % hs[-1].where[2])
                    if not put:
                        bad('listed', 'errors', 'an include error propagates without being added to the errors', hs[-1].where)
                    else:
                        ok = True
                if p.kind != 'return':
                    continue
                loops = [e for e in p.events if e.kind == 'ITER' and e.args[2] != 'comp' and is_nested(e.args[0])]
                for e in loops[:1]:
                    t = next((w for w in walk(e.args[1]) if w[0] == 'e' and is_nested(w)), e.args[1])

                    def names_kind(v, ns):
                        if v[0] in ('n', 't'):
                            vs = it.exact(p.st, v)
                            return bool(vs) and all(names_kind(w, ns) for w in vs)
                        return is_const(v) and str(cval(v)).split('.')[-1].lower() in ns

                    def kind(*ns):
                        for c, b in p.conds():
                            if not b:
                                continue
                            if c[0] == 'x' and c[1].endswith('.term_is') and c[2][0] == t and names_kind(c[2][1], ns):
                                return True
                            if c[0] == 'o' and c[1] in ('==', 'in', 'is') and names_kind(c[3], ns) and t in list(walk(c[2])):
                                return True
                            if c[0] == 'o' and c[1] == '==' and names_kind(c[2], ns) and t in list(walk(c[3])):
                                return True
                        return False
                    if kind('header', 'section', 'root'):
                        continue
                    ob('parent', 'a path of a term')
                    adds = [g for g in p.events if g.kind == 'CALL' and g.args[0].split('.')[-1] == 'add_child' and any(
                        v == t for _, v in g.args[1][1:])]
                    if not adds:
                        bad('parent', 'none', 'a term is not added to a parent, and no error is raised', e.where)
                    for g in adds:
                        if g.args[1][0][1] == t:
                            bad('parent', 'self', 'a term is made a child of itself', g.where)
                    for g in p.events:
                        if g.kind == 'HANDLER' and set(names(g.args[0])) & {'KeyError', 'LookupError', 'Exception'}:
                            bad('parent', 'handler', 'a term whose parent does not exist does not fail the load', g.where)
                        if g.kind == 'KEY' and g.args[0][0] == 'n' and g.args[0][1] == 'dict' and g.args[2] in ('get', 'setdefault'):
                            stored = any(h.kind == 'KEY' and h.args[0] == g.args[0] and h.args[2] == '__setitem__' for h in p.events)
                            dflt = g.args[3] if len(g.args) > 3 else NONE
                            if stored and (g.args[2] == 'setdefault' or dflt != NONE):
                                bad('parent', 'default', 'a term whose parent does not exist is given another parent', g.where)
                    for c, b in p.conds():
                        if not b and c[0] == 'o' and c[1] == 'in' and c[3][0] == 'n' and t in list(walk(c[2])):
                            bad('parent', 'absent', 'a term whose parent does not exist does not fail the load', e.where)
                            break
            if not ok:
                bad('listed', 'errors', 'an include error is not added to the errors of the parser')

        elif qual == 'TermParser.add_declared_term':
            D = ('a', self_, '_declared_sections')
            D2 = ('x', 'TermParser.declared_sections', (self_,))
            n = 0
            for p in ps:
                ob('section', 'a path')
                for e in p.events:
                    if e.kind == 'KEY' and e.args[0] in (D, D2):
                        n += 1
                        if e.args[2] in ('setdefault', '__setitem__') or e.args[2] == 'get' and len(e.args) > 3 and e.args[3] != NONE:
                            bad('section', 'default', 'a section that was not declared is made up for a declared term', e.where)
                if p.kind != 'return':
                    continue
                for c, b in p.conds():
                    if c[0] == 'o' and c[1] == 'in' and c[3] in (D, D2) and not b or c[0] == 'o' and c[1] == 'isnone' and b and (
                            D in list(walk(c)) or D2 in list(walk(c))):
                        bad('section', 'absent', 'a term in a section that was not declared does not fail the load')
                        break
                for e in p.events:
                    if e.kind == 'HSWALLOW' and set(names(e.args[0])) & (LOOKUP | FAILURES):
                        bad('section', 'handler', 'a term in a section that was not declared does not fail the load', e.where)
            if not n:
                bad('section', 'lookup', 'the section of a declared term is not looked up among the declared sections')

        elif qual == 'TermParser.inherited_children':
            t = ('p', f.params[1])
            for p in ps:
                ob('section', 'a path')
                if p.kind != 'return':
                    continue
                inh = any(b is False and 'inheritsfrom' in show(c) for c, b in p.conds())
                if not inh and any(not b and c[0] == 'o' and c[1] == 'in' and c[2] == C('section') and c[3] == t for c, b in p.conds()):
                    bad('section', 'missing', 'a term that inherits from another one without a section does not fail the load')
                for e in p.events:
                    if e.kind == 'HSWALLOW' and set(names(e.args[0])) & (LOOKUP | FAILURES):
                        bad('section', 'handler', 'a term in a section that was not declared does not fail the load', e.where)

        elif qual == 'TextRowGenerator.__init__':
            ref = ('p', f.params[1])
            decode = {'UnicodeDecodeError', 'UnicodeError', 'ValueError', 'Exception', ''}
            for p in ps:
                if p.kind != 'return':
                    continue
                for e in p.events:
                    if e.kind != 'HANDLER' or not set(names(e.args[0])) & decode:
                        continue
                    s = e.args[3] if len(e.args) > 3 else None
                    if not isinstance(s, ast.Try):
                        continue
                    opens = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'open' for n in ast.walk(
                        ast.Module(body=s.body, type_ignores=[])))
                    # an earlier handler lets what cannot be decoded through
                    passed = False
                    for h in s.handlers:
                        if h.lineno >= e.where[2]:
                            break
                        if h.type is not None and {getattr(n, 'id', getattr(n, 'attr', '')) for n in ast.walk(h.type)} & (decode - {''}) and any(isinstance(n, ast.Raise) for n in h.body):
                            passed = True
                    text = p.st.heap.get((self_, '_text'))
                    absent = any(not b and c[0] == 'x' and c[1].split('.')[-1] in ('exists', 'isfile') for c, b in p.conds())
                    if opens and text is not None and ref in members(text):
                        ob('unreadable', 'a path where the reference is the text')
                        if not passed and not absent:
                            bad('unreadable', 'text', 'a file that cannot be decoded is taken for the text of the document: its name is '
                                'parsed instead', e.where)
        return pack(it, findings, obs)

    sweep(ck, list(G), job, caps=(4000, 600), limit=300, must=('TermParser.generate_terms', 'TermParser.__iter__'))
