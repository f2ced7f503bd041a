"""C02 Documents do not share mutable state."""
import ast

from ..common import *
from .c01 import INPLACE

PASSES = 2      # of loop bodies

DECL = {'decl_sections', 'decl_terms', '_declared_sections', '_declared_terms', 'declared_sections', 'declared_terms'}
COLUMNS = {'args', 'header_args', 'terms', 'children', 'sections', 'decl_terms', 'decl_sections', 'super_terms',
           'derived_terms', '_declared_terms', '_declared_sections', '_param_map', 'errors', 'options'}
REGISTER = {'TermParser.register_term_class', 'TermParser.unregister_term_class', 'MetatabDoc.register_term_class'}
# takes the data that the YAML source has just loaded; nothing else calls it
INTERNAL = {'YamlMetatabSource.yield_dict'}
CACHES = ('lru_cache', 'cache', 'functools.lru_cache', 'functools.cache', 'memoize')


def base_of(v):
    """Root value below attributes, items and elements."""
    while v[0] in ('a', 'e', 'k', 'i', 'm'):
        v = v[1]
    return v


def fields_of(v):
    """(field, nested): the last attribute on the way to v, and whether items of it follow."""
    nested = False
    while v[0] in ('e', 'k', 'i', 'm', 'a'):
        if v[0] == 'a':
            return v[2], nested, v[1]
        nested = True
        v = v[1]
    return None, nested, v


def nested_literal(prog, mod, name):
    """Does the global literal contain mutable containers inside?"""
    m = prog.modules.get(mod)
    if m is None:
        return False
    e = None
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
            e = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
            e = s.value
    if e is None:
        return False
    inner = list(ast.walk(e))[1:]
    return any(isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or (
        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'dict', 'set')) for n in inner)


def class_literal(prog, cname, attr):
    c = prog.classes.get(cname)
    r = c.find_attr(attr) if c else None
    if not r:
        return False
    return any(isinstance(n, (ast.List, ast.Dict, ast.Set)) for n in list(ast.walk(r[1]))[1:])


def shared_root(v):
    b = base_of(v)
    if b[0] == 'G' or b[0] == 'C' and v[0] == 'a':
        return True
    while v[0] in ('a', 'e', 'k', 'i'):
        if v[0] == 'a' and v[1][0] == 'C':
            return True
        v = v[1]
    return False


def heap_values(st, v, depth=3):
    """v and what the fresh container v holds."""
    yield v
    if depth and v[0] == 'n':
        for k, w in st.heap.items():
            if k[0] == v and k[1] in ('[]', '{}', '[k]', '#copyof') and isinstance(w, tuple):
                for m in members(w):
                    yield from heap_values(st, m, depth - 1)


def run(prog, ck, thorough):
    ck.rule('global-state', 'no operation other than registering a term class assigns to or modifies a module global, a '
                            'class attribute or a default argument', 150)
    ck.rule('caller-data', 'no public operation modifies a list, dict or row that the caller passed in', 100)
    ck.rule('shared-container', 'a container that a document, section or term holds in an attribute, and that is modified in '
                                'place, is its own: it is never the caller\'s, a global, or part of the declarations', 50)
    ck.rule('memoised', 'a memoised module-level function never returns a mutable object', 0)
    ck.notes += ['objects of external libraries (caches, URLs) may be shared',
                 'a term or section that the caller moves to another document is shared by request']
    at = boundaries(prog, inline=('TermParser.add_declared_term', 'TermParser.add_declared_section',
                                  'TermParser.install_declare_terms', 'TermParser.add_value_set_value',
                                  'TermParser.inherited_children', 'SectionTerm.property_names',
                                  'MetatabDoc.section_args', 'TermParser.declare_dict', 'TermParser.declared_terms',
                                  'TermParser.declared_sections', 'TermParser.super_terms', 'TermParser.synonyms'))
    pkg = set(prog.classes)

    def param_container(st, it, v, f):
        """v is a container parameter of the entry (not a package object, not a string)."""
        if v[0] != 'p' or v[1] in ('self', 'cls'):
            return False
        a = f.node.args
        if (a.kwarg and a.kwarg.arg == v[1]) or (a.vararg and a.vararg.arg == v[1]):
            return False
        t = it.typeof(st, v)
        if isinstance(t, str) and (t in pkg or t in ('str', 'path', 'file', 'int', 'bool')):
            return False
        return True

    def job(f, cap):
        findings, stores, muts, obs = [], [], [], []
        public = not is_private(f) and f.qual not in INTERNAL

        def mut(ev, st, it, b, op_, vals):
            for m in members(b):
                bb = base_of(m)
                fld, nested, owner = fields_of(m)
                if shared_root(m):
                    if f.qual not in REGISTER:
                        findings.append(Finding('global-state', ev.where, show(m)[:80], '%s modifies (%s) %s, which all '
                                                'documents share' % (f.qual, op_, show(m)), it.chain()))
                    continue
                if m[0] == 'p' or fld is None:
                    if public and bb[0] == 'p' and param_container(st, it, bb, f):
                        findings.append(Finding('caller-data', ev.where, show(m)[:80], '%s modifies (%s) %s, which belongs to '
                                                'the caller' % (f.qual, op_, show(m)), it.chain()))
                    elif m[0] in ('e', 'i') and any(w[0] == 'x' and w[1].endswith(('get_generator', 'get_row_generator'))
                                                     for w in walk(m)):
                        findings.append(Finding('caller-data', ev.where, 'row', '%s modifies (%s) a row of the source, which '
                                                'may belong to the caller' % (f.qual, op_), it.chain()))
                if fld is not None and bb[0] != 'n':
                    if fld == '_rows' and nested:
                        findings.append(Finding('caller-data', ev.where, 'row', '%s modifies (%s) a row of the source'
                                                % (f.qual, op_), it.chain()))
                    muts.append((fld, nested, ev.where, f.qual, op_))
                if fld is not None or m[0] == 'n':
                    # what is put into the container
                    for v in vals:
                        for w in members(v):
                            for y in heap_values(st, w):
                                reason = nested_shared(y)
                                if reason and fld is not None:
                                    stores.append((fld, 'nested', reason, ev.where, f.qual))

        def nested_shared(v):
            """v brings the inside of a shared literal along."""
            for m in members(v):
                b = base_of(m)
                if b[0] == 'G' and nested_literal(prog, b[1], b[2]):
                    return show(m)
                if m[0] in ('i', 'e') and b[0] == 'G':
                    return show(m) if nested_literal(prog, b[1], b[2]) else None
                w = m
                while w[0] in ('a', 'e', 'i', 'k'):
                    if w[0] == 'a' and w[1][0] == 'C':
                        return show(m) if class_literal(prog, w[1][1], w[2]) else None
                    w = w[1]
            return None

        def o(ev, st, it):
            k = ev.kind
            if k == 'MUT':
                vals = ev.args[3] if len(ev.args) > 3 else ()
                mut(ev, st, it, ev.args[0], ev.args[1], vals)
            elif k == 'XCALL':
                name, recv, args, kw = ev.args[:4]
                if name in INPLACE and args:
                    mut(ev, st, it, args[0], name, ())
                elif name in ('os.chdir', 'os.putenv', 'os.unsetenv', 'sys.path.append', 'sys.path.insert', 'locale.setlocale',
                              'csv.field_size_limit', 'random.seed', 'sys.setrecursionlimit') and \
                        f.module.name != 'metatab.cli':
                    findings.append(Finding('global-state', ev.where, name, '%s changes a setting of the process: %s' % (
                        f.qual, name), it.chain()))
            elif k == 'GLOBAL':
                pass
            elif k in ('STORE', 'DELATTR'):
                b, attr = ev.args[:2]
                if not isinstance(attr, str):
                    attr = cval(attr) if is_const(attr) else None
                for m in members(b):
                    if m[0] in ('C', 'M') or m[0] == 'x' and m[1] == 'type' or shared_root(m):
                        if f.qual not in REGISTER:
                            findings.append(Finding('global-state', ev.where, '%s.%s' % (show(m), attr), '%s assigns to %s.%s, '
                                                    'which all documents share' % (f.qual, show(m), attr), it.chain()))
                if k == 'STORE' and attr is not None:
                    v = ev.args[2]
                    for m in members(v):
                        reason = None
                        if shared_root(m) and not is_const(m) and base_of(m)[0] in ('G', 'C'):
                            reason = 'the global %s' % show(m)
                        elif m[0] == 'p' and public and param_container(st, it, m, f):
                            reason = 'the caller\'s %s' % show(m)
                        elif m[0] in ('i', 'e', 'a', 'x'):
                            fld, nested, owner = fields_of(m)
                            if fld in DECL and nested and m[0] in ('i', 'e'):
                                if not (is_const(v_key(m)) and cval(v_key(m)) not in ('args', 'terms', 'values')):
                                    reason = 'the declaration %s' % show(m)
                            elif m[0] == 'x' and m[1] == 'MetatabDoc.section_args':
                                reason = 'the declaration %s' % show(m)
                        if reason:
                            stores.append((attr, 'alias', reason, ev.where, f.qual))
                        for y in heap_values(st, m):
                            r = nested_shared(y)
                            if r:
                                stores.append((attr, 'nested', r, ev.where, f.qual))
                obs.append(('shared-container', '%s stores %s' % (f.qual, attr)))

        def v_key(m):
            return m[2] if m[0] == 'i' else TOP

        it = Interp(prog, atoms={q: t for q, t in at.items()}, cap=cap, observers=[o])
        it.run(f)
        # assignments to names declared global
        for n in ast.walk(f.node):
            if isinstance(n, ast.Global):
                assigned = {t.id for t in ast.walk(f.node) if isinstance(t, ast.Name) and isinstance(t.ctx, (ast.Store, ast.Del))}
                for nm in n.names:
                    if nm in assigned and f.module.name not in ('metatab.cli',):
                        findings.append(Finding('global-state', (f.module.path, f.qual, n.lineno), 'global ' + nm,
                                                '%s assigns to the module global %s' % (f.qual, nm)))
        obs = sorted(set(obs)) + [('global-state', f.module.name + ':' + f.qual)]
        if public:
            obs.append(('caller-data', f.module.name + ':' + f.qual))
        return pack(it, findings, obs, stores=stores, muts=muts)

    res = sweep(ck, entries(prog, private=True), job, label=lambda f: f.qual)
    muts = {}
    for r in res:
        for fld, nested, where, q, op_ in r['muts']:
            muts.setdefault((fld, nested), (where, q, op_))
    for r in res:
        for fld, kind, reason, where, q in r['stores']:
            m = muts.get((fld, kind == 'nested'))
            if kind == 'alias' and m is None and fld in COLUMNS and not reason.startswith('the caller'):
                ck.fail('shared-container', where, fld, '%s makes %s be %s instead of a copy' % (q, fld, reason))
            elif kind == 'alias' and m is None and fld in ('args', 'header_args', 'terms', 'children', 'sections'):
                ck.fail('shared-container', where, fld, '%s makes %s be %s instead of a copy' % (q, fld, reason))
            elif m is not None:
                ck.fail('shared-container', where, fld, '%s makes %s %s %s, and %s modifies it in place (%s, line %d)' % (
                    q, fld, 'contain the inside of' if kind == 'nested' else 'be', reason, m[1], m[2], m[0][2]))

    # memoised functions
    for f in prog.funcs.values():
        for d in f.node.decorator_list if not isinstance(f.node, ast.Lambda) else ():
            e = d.func if isinstance(d, ast.Call) else d
            name = ast.unparse(e)
            if name.split('.')[-1] not in ('lru_cache', 'cache', 'memoize'):
                continue
            ck.ob('memoised', f.qual)
            if f.cls is not None and not f.is_classmethod and not f.is_staticmethod and f.outer is None:
                continue        # kept per object
            it = Interp(prog, atoms=at, cap=16)
            for st, kind, v in it.run(f):
                if kind != 'return':
                    continue
                for m in members(v):
                    t = it.typeof(st, m)
                    if m[0] == 'n' and m[1] in ('list', 'dict', 'set', 'gen') or isinstance(t, str) and t in pkg or \
                            isinstance(t, tuple) and t[0] in ('list', 'dict', 'set'):
                        ck.fail('memoised', (f.module.path, f.qual, f.node.lineno), f.qual,
                                '%s is memoised and returns %s, which all documents then share' % (f.qual, show(m)))
