"""C06 Written documents carry their identity, and identifiers are stable."""
import ast

from ..common import *
from ..effects import io_call, is_fsmod

PASSES = 2      # of loop bodies

RENDER = {'MetatabDoc.as_csv', 'MetatabDoc.as_lines', 'MetatabDoc.rows', 'MetatabDoc.lines', 'SectionTerm.rows',
          'SectionTerm.lines', 'SectionTerm.as_lines', 'Term.rows', 'MetatabDoc.as_dict'}
ENSURE, NAME = 'MetatabDoc.ensure_identifier', 'MetatabDoc.update_name'
EDIT = {ENSURE, NAME, 'MetatabDoc.cleanse', 'MetatabDoc.update_version', 'MetatabDoc._generate_identity_name',
        'SectionTerm.new_term', 'SectionTerm.get_or_new_term', 'Term.new_child', 'Term.get_or_new_child',
        'MetatabDoc.add_term', 'MetatabDoc.remove_term', 'SectionTerm.add_term', 'SectionTerm.remove_term',
        'MetatabDoc.clean_unused_schema_terms', 'SectionTerm.__setitem__', 'SectionTerm.__delitem__',
        'Term.__setitem__', 'MetatabDoc.add_section', 'MetatabDoc.sort_sections', 'MetatabDoc.__delitem__',
        'SectionTerm.set_terms', 'SectionTerm.clean'}
LOOK = {'MetatabDoc.find_first', 'MetatabDoc.get', 'SectionTerm.find_first', 'SectionTerm.get_term',
        'SectionTerm.__getitem__', 'MetatabDoc.find', 'SectionTerm.find', 'Term.find_first', 'Term.__getitem__',
        'SectionTerm.get_or_new_term', 'Term.get'}


def is_ident_name(v):
    return any(is_const(m) and isinstance(cval(m), str) and cval(m).lower() in ('root.identifier', 'identifier')
               for m in members(v))


def is_identifier(v):
    """Is v the identifier term of a document, found by a lookup?"""
    for m in members(v):
        if m[0] in ('e', 'i') and m[1][0] == 'x':
            m = m[1]
        if m[0] == 'x' and m[1] in LOOK and any(is_ident_name(a) for a in m[2]):
            return True
    return False


def falsy_known(st, it, b, attr):
    """The path has established that b.attr is empty."""
    for m in members(b):
        v = st.heap.get((m, attr), ('a', m, attr))
        t = it.truth(st, v)
        if t is True or t is None:
            return False
    return True


def run(prog, ck, thorough):
    ck.rule('identity-before-render', 'on every path that writes a file, ensure_identifier and update_name run before the '
                                      'document is rendered, and nothing changes the document afterwards', 2)
    ck.rule('ensure-identifier', 'ensure_identifier sets the value only where it is empty, and leaves it non-empty on '
                                 'every path', 1)
    ck.rule('identifier-stable', 'no other operation assigns to or removes the identifier it has looked up', 100)
    ck.rule('get-or-create', 'get-or-create without a value does not change the value of an existing term', 2)
    ck.notes += ['uuid4 returns a non-empty value',
                 'a caller that itself assigns to the identifier replaces it; that is an explicit request']

    inline = ('MetatabDoc.cleanse', 'MetatabDoc.update_name', 'MetatabDoc.write', 'MetatabDoc.write_csv',
              'MetatabDoc.write_lines', 'MetatabDoc.__getitem__')
    at = boundaries(prog, inline=inline, extra={'MetatabDoc._generate_identity_name': 'str',
                                                'MetatabDoc._write_path': 'path'})

    def track(ev, st, it):
        if ev.kind == 'CALL':
            return ev.args[0] in RENDER or ev.args[0] in EDIT
        if ev.kind == 'XCALL':
            return is_fsmod(ev)
        if ev.kind == 'ITERATE':
            return any(t[0] == 'x' and t[1] in RENDER for t in walk(ev.args[0]))
        if ev.kind == 'STORE':
            return isinstance(ev.args[1], str) and ev.args[1] == 'value' and it.owner_root(st, ev.args[0]).startswith(
                'param')
        return False

    def writer(f, cap):
        findings, obs = [], []
        it = Interp(prog, atoms=at, cap=cap, observers=[track], opaque=('MetatabDoc', 'TermParser'), implicit=False)
        outs = it.run(f)
        n = 0
        for st, kind, v in outs:
            evs = st.events
            mods = [i for i, e in enumerate(evs) if e.kind == 'XCALL']
            if not mods:
                continue
            n += 1
            names = ' > '.join(e.args[0] if e.kind in ('CALL', 'XCALL') else e.kind for e in evs)
            obs.append(('identity-before-render', '%s: %s' % (f.qual, names[:300])))
            rend = [i for i, e in enumerate(evs) if e.kind == 'ITERATE' or e.kind == 'CALL' and e.args[0] in RENDER]
            if not rend:
                continue
            r = rend[0]
            calls = [e.args[0] for e in evs[:r] if e.kind == 'CALL']
            for need, what in ((ENSURE, 'identifier'), (NAME, 'name')):
                if need not in calls:
                    findings.append(Finding('identity-before-render', evs[r].where, need,
                                            '%s renders the document before %s has brought the %s up to date' % (
                                                f.qual, need, what), names))
            for e in evs[r + 1:]:
                if e.kind == 'STORE' or e.kind == 'CALL' and e.args[0] in EDIT:
                    findings.append(Finding('identity-before-render', e.where, 'change after render',
                                            '%s changes the document after it was rendered for the file' % f.qual, names))
        if n == 0:
            raise AnalysisError('%s writes nothing on any path' % f.qual)
        return pack(it, findings, obs, stats=dict(paths=len(outs), paths_that_write=n))

    ws = [prog.func('metatab.doc', 'MetatabDoc.' + n) for n in ('write_csv', 'write_lines', 'write')]
    sweep(ck, ws, writer, label=lambda f: f.qual, caps=(512, 64))

    # a failure to bring the document up to date must not be passed over
    for f in prog.funcs.values():
        if f.module.name.startswith('metatab.test'):
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Try):
                continue
            called = {c.func.attr for b in n.body for c in ast.walk(b) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)}
            if not called & {'cleanse', 'ensure_identifier'} or any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in (
                    '_write', 'write_csv', 'write_lines', 'write') for b in n.body for c in ast.walk(b)):
                continue
            for h in n.handlers:
                types = [] if h.type is None else [ast.unparse(t).split('.')[-1] for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if (not types or {'Exception', 'BaseException', 'MetatabError', 'AttributeError', 'TypeError', 'KeyError'} & set(types)) and not isinstance(
                        h.body[-1], (ast.Raise, ast.Return)):
                    ck.fail('identity-before-render', (f.module.path, f.qual, h.lineno), 'swallowed',
                            '%s goes on when the identity of the document could not be brought up to date' % f.qual)

    # ensure_identifier
    ens = prog.func('metatab.doc', ENSURE)

    def ensure(f, cap):
        findings, obs = [], []

        def o(ev, st, it):
            if ev.kind == 'STORE' and ev.args[1] == 'value':
                b, _, v = ev.args[:3]
                created = all(m[0] in ('n',) or m[0] == 'x' and m[1] in ('SectionTerm.new_term', 'Term.new_child')
                              for m in members(b))
                if not created and not falsy_known(st, it, b, 'value'):
                    findings.append(Finding('ensure-identifier', ev.where, 'value', 'the value of an identifier that may '
                                            'not be empty is replaced by %s' % show(v), it.chain()))
                if is_const(v) and not cval(v):
                    findings.append(Finding('ensure-identifier', ev.where, 'empty', 'the identifier is set to %s' % show(v),
                                            it.chain()))
                return True
            if ev.kind == 'CALL' and ev.args[0] in ('MetatabDoc.remove_term', 'SectionTerm.remove_term', 'SectionTerm.__delitem__',
                                                    'MetatabDoc.__delitem__'):
                vals = [v for k_, v in ev.args[1] if isinstance(v, tuple) and v and isinstance(v[0], str)]
                if any(is_identifier(v) and not falsy_known(st, it, v, 'value') or is_ident_name(v) for v in vals):
                    findings.append(Finding('ensure-identifier', ev.where, 'removed', 'an identifier that may not be empty is removed',
                                            it.chain()))
            if ev.kind == 'CALL' and ev.args[0] in ('SectionTerm.new_term', 'SectionTerm.get_or_new_term'):
                return True
            return False

        it = Interp(prog, atoms=boundaries(prog, inline=('MetatabDoc.__getitem__',)), cap=cap, observers=[o])
        outs = it.run(f)
        for st, kind, v in outs:
            if kind != 'return':
                continue
            obs.append(('ensure-identifier', 'path: ' + ', '.join('%s=%s' % (show(k), b) for k, b in sorted(
                st.conds.items(), key=repr))[:300]))
            ok = any(e.kind == 'STORE' and not (is_const(e.args[2]) and not cval(e.args[2])) for e in st.events)
            if not ok:
                for k, b in st.conds.items():
                    if k[0] == 'a' and k[2] == 'value' and b is True:
                        ok = True
                    if k[0] == 'x' and k[1] in ('MetatabDoc.find_first_value', 'MetatabDoc.get_value',
                                                'SectionTerm.find_first_value') and b is True:
                        ok = True
                    if k[0] == 'o' and k[1] in ('not',) and b is False and k[2][0] == 'a' and k[2][2] == 'value':
                        ok = True
            if not ok:
                for e in st.events:     # created with a value
                    if e.kind == 'CALL':
                        bound = dict(e.args[1])
                        if bound.get('value') is not None and not (is_const(bound['value']) and not cval(bound['value'])):
                            ok = True
            if not ok:
                findings.append(Finding('ensure-identifier', (f.module.path, f.qual, f.node.lineno), 'path without value',
                                        'a path returns without the identifier having a value: %s' % ', '.join(
                                            '%s is %s' % (show(k), b) for k, b in st.conds.items())))
        return pack(it, findings, obs)

    sweep(ck, [ens], ensure, label=lambda f: f.qual, must=(ENSURE,))

    # nobody else replaces it
    at2 = boundaries(prog)

    def stable(f, cap):
        findings = []

        def o(ev, st, it):
            if ev.kind == 'STORE' and ev.args[1] == 'value' and is_identifier(ev.args[0]):
                if not falsy_known(st, it, ev.args[0], 'value'):
                    findings.append(Finding('identifier-stable', ev.where, 'store', '%s assigns to the identifier it has '
                                            'looked up' % f.qual, it.chain()))
            elif ev.kind == 'CALL':
                q, bound = ev.args[0], dict(ev.args[1])
                if q in ('SectionTerm.get_or_new_term', 'Term.get_or_new_child', 'SectionTerm.__setitem__',
                         'Term.__setitem__'):
                    nm = bound.get('term', bound.get('item'))
                    val = bound.get('value')
                    if nm is not None and is_ident_name(nm) and val is not None and val not in (FALSE, NONE):
                        findings.append(Finding('identifier-stable', ev.where, q, '%s assigns %s to the identifier with '
                                                '%s' % (f.qual, show(val), q), it.chain()))
                elif q in ('SectionTerm.__delitem__',) and is_ident_name(bound.get('item', TOP)):
                    findings.append(Finding('identifier-stable', ev.where, q, '%s deletes the identifier' % f.qual,
                                            it.chain()))
                elif q in ('MetatabDoc.remove_term', 'SectionTerm.remove_term', 'Term.remove_child'):
                    if any(is_identifier(v) for k, v in ev.args[1]):
                        findings.append(Finding('identifier-stable', ev.where, q, '%s removes the identifier' % f.qual,
                                                it.chain()))

        it = Interp(prog, atoms=at2, cap=cap, observers=[o], opaque=('MetatabDoc', 'TermParser'))
        it.run(f)
        return pack(it, findings, [('identifier-stable', f.module.name + ':' + f.qual)])

    sweep(ck, [f for f in entries(prog) if f.qual != ENSURE], stable, label=lambda f: f.qual)

    def getornew(f, cap):
        findings = []

        def o(ev, st, it):
            if ev.kind == 'STORE' and ev.args[1] == 'value' and ev.args[2] == FALSE:
                b = ev.args[0]
                if any(m[0] == 'x' for m in members(b)):
                    findings.append(Finding('get-or-create', ev.where, 'value', '%s without a value overwrites the value '
                                            'of an existing term' % f.qual, it.chain()))

        it = Interp(prog, atoms=boundaries(prog), cap=cap, observers=[o])
        it.run(f, args={'value': FALSE})
        return pack(it, findings, [('get-or-create', f.qual)])

    sweep(ck, [prog.func('metatab.terms', 'SectionTerm.get_or_new_term'),
               prog.func('metatab.terms', 'Term.get_or_new_child')], getornew, label=lambda f: f.qual)
