"""C22 Everything the package refers to exists."""
import ast
import builtins
import importlib
import inspect
import os
import re
import symtable
import sys

from ..common import *

PASSES = 2      # of loop bodies

SITE = '/opt/venv/lib/python3.12/site-packages'
BUILTIN_KINDS = {'list': list, 'dict': dict, 'set': set, 'tuple': tuple, 'str': str, 'frozenset': frozenset}
IMPLICIT = {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__class__', '__builtins__',
            '__module__', '__qualname__', '__annotations__', '__debug__', '__loader__', '__dict__'}


# ------------------------------------------------------------------------------------ external modules

_std = {}


def std_module(name):
    """A standard library module of the interpreter, or None."""
    root = name.split('.')[0]
    if root not in sys.stdlib_module_names or root in ('antigravity', 'this', 'idlelib', 'turtle', 'turtledemo', 'tkinter'):
        return None
    if name not in _std:
        try:
            _std[name] = importlib.import_module(name)
        except Exception:
            _std[name] = None
    return _std[name]


def std_has(dotted):
    """True/False when dotted names something of the standard library, None when it is not from there."""
    parts = dotted.split('.')
    for i in range(len(parts), 0, -1):
        m = std_module('.'.join(parts[:i]))
        if m is not None:
            o = m
            for p in parts[i:]:
                if not hasattr(o, p):
                    return False
                o = getattr(o, p)
                if not isinstance(o, type(os)) and not isinstance(o, type):
                    return True
            return True
    if parts[0] in sys.stdlib_module_names:
        return False if len(parts) > 1 and std_module(parts[0]) is not None else None
    return None


_third = {}


def third_file(mod):
    p = os.path.join(SITE, *mod.split('.'))
    if os.path.isdir(p):
        i = os.path.join(p, '__init__.py')
        return i if os.path.exists(i) else p
    if os.path.exists(p + '.py'):
        return p + '.py'
    import glob
    so = glob.glob(glob.escape(p) + '.*.so')
    return so[0] if so else None


def third_names(mod, seen=()):
    """Names bound at the top level of an installed module, by parsing it. None when unknown."""
    if mod in seen:
        return set()
    if mod in _third:
        return _third[mod]
    f = third_file(mod)
    if f is None or not f.endswith('.py'):
        return None
    try:
        tree = ast.parse(open(f, encoding='utf8', errors='replace').read())
    except SyntaxError:
        return None
    names = set()
    unknown = False
    pkg = mod if f.endswith('__init__.py') else mod.rsplit('.', 1)[0] if '.' in mod else ''

    def scan(stmts):
        nonlocal unknown
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                names.add(s.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    names.add(a.asname or a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    parts = pkg.split('.')
                    parts = parts[:len(parts) - (s.level - 1)]
                    base = '.'.join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == '*':
                        sub = third_names(base, seen + (mod,))
                        if sub is None:
                            unknown = True
                        else:
                            names.update(sub)
                    else:
                        names.add(a.asname or a.name)
                        if s.level and s.module:
                            names.add(s.module.split('.')[0])
            elif isinstance(s, ast.FunctionDef):
                pass
            else:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        names.add(n.id)
                for sub in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, sub, None)
                    if isinstance(b, list):
                        scan([x_ for x_ in b if isinstance(x_, ast.stmt)])
                for h in getattr(s, 'handlers', []):
                    scan(h.body)
    scan(tree.body)
    if '__getattr__' in names or 'globals' in ast.unparse(tree)[:0]:
        unknown = True
    if f.endswith('__init__.py'):
        d = os.path.dirname(f)
        for n in os.listdir(d):
            if n.endswith('.py'):
                names.add(n[:-3])
            elif os.path.isdir(os.path.join(d, n)):
                names.add(n)
            elif n.endswith('.so'):
                names.add(n.split('.')[0])
    _third[mod] = None if unknown else names
    return _third[mod]


def missing(prog, dotted):
    """Why an external dotted name does not exist, or None."""
    s = std_has(dotted)
    if s is True:
        return None
    if s is False:
        return 'the standard library of Python %d.%d has no %s' % (sys.version_info[0], sys.version_info[1], dotted)
    parts = dotted.split('.')
    if len(parts) == 1 and hasattr(builtins, dotted):
        return None
    if parts[0] in sys.stdlib_module_names or parts[0].startswith('__'):
        return None
    for i in range(len(parts), 0, -1):
        mod = '.'.join(parts[:i])
        if third_file(mod):
            rest = parts[i:]
            if not rest:
                return None
            names = third_names(mod)
            if names is None or rest[0] in names:
                return None
            return 'the installed module %s has no %s' % (mod, rest[0])
    if len(parts) > 1 and hasattr(builtins, parts[0]):
        return None
    return 'there is no module %s' % parts[0]


# ------------------------------------------------------------------------------------ reachable syntax

def reachable(stmts):
    """Statements that are not behind a return, raise, break or continue of the same block."""
    for s in stmts:
        yield s
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            return


def live_nodes(node):
    """All nodes of a function or module that can be reached, with the enclosing import guards."""
    todo = [(node, False)]
    while todo:
        n, guarded = todo.pop()
        yield n, guarded
        if isinstance(n, ast.Try):
            g = guarded or any(h.type is None or any(
                isinstance(t, (ast.Name, ast.Attribute)) and ast.unparse(t).split('.')[-1] in (
                    'ImportError', 'ModuleNotFoundError', 'NameError', 'AttributeError', 'Exception', 'BaseException')
                for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])) for h in n.handlers)
            todo += [(c, g) for c in reachable(n.body)]
            for h in n.handlers:
                todo.append((h, guarded))
            todo += [(c, guarded) for c in reachable(n.orelse)] + [(c, guarded) for c in reachable(n.finalbody)]
            continue
        for name, val in ast.iter_fields(n):
            if isinstance(val, list) and val and all(isinstance(x_, ast.stmt) for x_ in val):
                todo += [(c, guarded) for c in reachable(val)]
            elif isinstance(val, list):
                todo += [(c, guarded) for c in val if isinstance(c, ast.AST)]
            elif isinstance(val, ast.AST):
                todo.append((val, guarded))


def undefined_names(prog, m):
    """(name) that a scope of the module refers to as global, and that the module does not define."""
    out = set()

    def rec(t):
        for s in t.get_symbols():
            if t.get_type() == 'module':
                ok = s.is_assigned() or s.is_imported() or s.is_namespace()
                if s.is_referenced() and not ok:
                    out.add(s.get_name())
            elif s.is_global() and s.is_referenced() and not s.is_declared_global():
                out.add(s.get_name())
            elif s.is_declared_global() and s.is_referenced():
                out.add(s.get_name())
        for c in t.get_children():
            rec(c)
    rec(symtable.symtable(m.src, m.path, 'exec'))
    declared = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            declared.update(n.names)
    bad = set()
    for n in out:
        if n in IMPLICIT or hasattr(builtins, n) or n in declared:
            continue
        if prog.resolve_global(m, n) is None:
            if any(sm not in prog.modules for sm in m.star):
                continue
            bad.add(n)
    return bad


def local_import_names(prog, m):
    """from M import a, b of the module, anywhere: (node, dotted, guarded)"""
    for n, guarded in live_nodes(m.tree):
        if isinstance(n, ast.ImportFrom):
            mod = n.module or ''
            if n.level:
                parts = m.name.split('.')
                if not m.path.endswith('__init__.py'):
                    parts = parts[:-1]
                parts = parts[:len(parts) - (n.level - 1)]
                mod = '.'.join(parts + ([n.module] if n.module else []))
            for a in n.names:
                yield n, mod, a.name, guarded
        elif isinstance(n, ast.Import):
            for a in n.names:
                yield n, a.name, None, guarded


def wrong_call(name, args, kw):
    """Why the standard library function does not accept the arguments, or None."""
    parts = name.split('.')
    for i in range(len(parts) - 1, 0, -1):
        m = std_module('.'.join(parts[:i]))
        if m is not None:
            break
    else:
        return None
    o = m
    for p in parts[i:]:
        o = getattr(o, p, None)
    if not callable(o):
        return None
    try:
        sig = inspect.signature(o)
    except (ValueError, TypeError):
        return None
    ps = list(sig.parameters.values())
    if any(a[0] in ('kw', 'star', 'super') for a in args if isinstance(a, tuple) and a):
        return None
    names = [k[0] for k in kw if isinstance(k, tuple) and k and isinstance(k[0], str)]
    if not any(p.kind is p.VAR_KEYWORD for p in ps):
        for k in names:
            if k and k.isidentifier() and k not in sig.parameters:
                return '%s has no parameter %s' % (name, k)
    if not any(p.kind is p.VAR_POSITIONAL for p in ps):
        most = sum(p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) for p in ps)
        if len(args) > most:
            return '%s does not accept %d positional arguments' % (name, len(args))
    return None


_builtin_attrs = None
_scan = {}


def anywhere(prog, m, attr):
    """Some class or module that the package can get at has the attribute."""
    global _builtin_attrs
    if _builtin_attrs is None:
        _builtin_attrs = set()
        for o in vars(builtins).values():
            _builtin_attrs |= set(dir(o))
        for o in (open(os.devnull), open(os.devnull, 'rb'), (i for i in ()), re.compile(''), re.match('', ''), ast.parse, sys.stdout):
            _builtin_attrs |= set(dir(o))
    if attr in _builtin_attrs:
        return True
    third = {'rowgenerators', 'fs'}
    for mm in prog.modules.values():
        for n in ast.walk(mm.tree):
            mods = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module] if isinstance(
                n, ast.ImportFrom) and n.module and not n.level else []
            for mod in mods:
                s = std_module(mod) or std_module(mod.split('.')[0])
                if s is None:
                    third.add(mod.split('.')[0])
                    continue
                if mod not in _scan:
                    found = set(dir(s))
                    for o in list(vars(s).values()):
                        found |= set(dir(o))
                    _scan[mod] = found
                if attr in _scan[mod]:
                    return True
    for name in sorted(third - {'metatab'}):
        if name not in _scan:
            found = set()
            base = os.path.join(SITE, name)
            for d, _, fs in os.walk(base):
                for fn in fs:
                    if fn.endswith(('.py', '.pyi')):
                        try:
                            found.update(re.findall(r'[A-Za-z_]\w*', open(os.path.join(d, fn), encoding='utf8', errors='replace').read()))
                        except OSError:
                            pass
                    elif fn.endswith('.so'):
                        found.add('*')
            if not os.path.isdir(base):
                try:
                    found.update(re.findall(r'[A-Za-z_]\w*', open(base + '.py', encoding='utf8', errors='replace').read()))
                except OSError:
                    pass
            _scan[name] = found
        if attr in _scan[name]:
            return True
    return False


def unbound(f):
    """Variables that only one branch of an if assigns, and that the statements after it use: (name, line)."""
    params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} | {
        a.arg for a in (f.args.vararg, f.args.kwarg) if a is not None}
    free = {n for s in ast.walk(f) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}

    def binds(nodes):
        out = set()
        for s in nodes:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.alias):
                    out.add(n.asname or n.name.split('.')[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
        return out

    def ends(nodes):
        return any(isinstance(n, (ast.Return, ast.Raise, ast.Continue, ast.Break)) or isinstance(n, ast.Expr) and isinstance(
            n.value, ast.Call) and ast.unparse(n.value.func).split('.')[-1] in ('exit', 'err', '_exit', 'error') for s in nodes for n in ast.walk(s))

    def reads(s):
        """Names that a plain statement certainly reads."""
        if not isinstance(s, (ast.Expr, ast.Assign, ast.Return, ast.AugAssign)):
            return set()
        skip = {id(w) for n in ast.walk(s) if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.IfExp,
                                                              ast.BoolOp)) for w in ast.walk(n)}
        return {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in skip}

    def block(stmts, known, loop):
        known = set(known)
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and not loop:
                a, b = binds(s.body), binds(s.orelse)
                for one, other in ((s.body, s.orelse), (s.orelse, s.body)):
                    some = binds(one) - binds(other) - known - binds([s.test])
                    if not some or ends(other) or not one:
                        continue
                    seen = set()
                    for later in stmts[i + 1:]:
                        for name in sorted((reads(later) & some) - seen):
                            yield name, later.lineno
                        seen |= binds([later])
                        if isinstance(later, (ast.Return, ast.Raise)):
                            break
            for sub in ('body', 'orelse', 'finalbody'):
                b = getattr(s, sub, None)
                if isinstance(b, list) and b and isinstance(s, (ast.If, ast.With)):
                    yield from block(b, known, loop)
            known |= binds([s])

    yield from block(f.body, params | free, False)


def run(prog, ck, thorough):
    ck.rule('name-defined', 'every global name that reachable code uses is defined in its module, imported or a builtin', 8)
    ck.rule('import-exists', 'every imported module and name exists in the package, the standard library or the installed '
                             'dependencies', 30)
    ck.rule('attribute-exists', 'every attribute of a module, and every attribute, method and argument of a package object, '
                                'exists', 100)
    ck.rule('entry-point', 'every entry point of setup.py names an existing object', 2)
    ck.notes += ['installed dependencies are inspected by parsing %s' % SITE,
                 'children of a term are reachable as attributes (Term.__getattr__), so only attributes that neither a '
                 'class of the package nor a common property provides are reported',
                 'the interpreter is the one the repository is tested with (Python 3.12)']

    for m in prog.modules.values():
        ck.ob('name-defined', m.name)
        bad = undefined_names(prog, m)
        if bad:
            for n, guarded in live_nodes(m.tree):
                if isinstance(n, ast.Name) and n.id in bad and isinstance(n.ctx, ast.Load) and not guarded:
                    ck.fail('name-defined', (m.path, m.name, n.lineno), n.id, 'the name %s is not defined' % n.id)
        for n, mod, name, guarded in local_import_names(prog, m):
            ck.ob('import-exists', '%s: %s%s' % (m.name, mod, '.' + name if name else ''))
            if guarded or name == '*':
                continue
            why = None
            if mod in prog.modules or mod.split('.')[0] == 'metatab':
                if mod not in prog.modules:
                    if not os.path.isdir(os.path.join(prog.root, *mod.split('.'))):
                        why = 'there is no module %s' % mod
                elif name is not None and prog.resolve_import(('from', mod, name)) is None:
                    if not os.path.isdir(os.path.join(prog.root, *mod.split('.'), name)):
                        why = 'the module %s has no %s' % (mod, name)
            else:
                why = missing(prog, mod + ('.' + name if name else ''))
            if why:
                ck.fail('import-exists', (m.path, m.name, n.lineno), '%s.%s' % (mod, name), why)

    at = boundaries(prog)
    stored = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                stored.setdefault(n.attr, set()).add(m.name)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant):
                stored.setdefault(n.args[1].value, set()).add(m.name)
    subs = {}
    for c in prog.classes.values():
        for k in c.mro():
            if not isinstance(k, str):
                subs.setdefault(k.name, set()).add(c.name)
    common_props = set()
    tc = prog.classes.get('Term')
    if tc is not None and '_common_properties' in tc.attrs:
        for n in ast.walk(tc.attrs['_common_properties']):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                common_props.update(n.value.split())

    def known_attr(cname, attr):
        if attr.startswith('__') or attr in stored or attr in common_props:
            return True
        for s in subs.get(cname, {cname}):
            c = prog.classes[s]
            if c.find(attr) is not None or c.find_attr(attr) is not None or c.find_setter(attr) is not None:
                return True
            if any(b not in ('object',) for b in c.external_bases()):
                return True
        return False

    def job(f, cap):
        findings = []

        def o(ev, st, it):
            k = ev.kind
            if k == 'UNDEFINED':
                # plain names are decided by the symbol tables (name-defined)
                if '.' in ev.args[0] and not any('NameError' in t or 'AttributeError' in t or 'Exception' in t or 'ImportError' in t
                           for t in it.tries):
                    findings.append(Finding('attribute-exists', ev.where, ev.args[0], '%s does not exist' % ev.args[0],
                                            it.chain()))
            elif k in ('XCALL',):
                name, recv, args, kw = ev.args[:4]
                if recv is None and '.' in name and not name.startswith(('.', '__module__')):
                    why = missing(prog, name)
                    if why and 'no module' not in why:
                        findings.append(Finding('attribute-exists', ev.where, name, why, it.chain()))
                    elif not why:
                        why = wrong_call(name, args, kw)
                        if why:
                            findings.append(Finding('attribute-exists', ev.where, name, why, it.chain()))
                elif recv is not None and name.startswith('.'):
                    kind = it.kind(st, recv)
                    if kind in BUILTIN_KINDS and recv[0] in ('n', 't', 'c', 'a') and not (recv[0] == 'a' and recv[1][0] != 'p') \
                            and not any(hasattr(t_, name[1:]) for t_ in BUILTIN_KINDS.values()):
                        if not guarded_attr(it) and not (recv[0] == 'n' and recv[1] not in BUILTIN_KINDS):
                            findings.append(Finding('attribute-exists', ev.where, kind + name, 'a %s has no %s' % (
                                kind, name[1:]), it.chain()))
            elif k == 'MUT':
                c, op_ = ev.args[:2]
                kind = it.kind(st, c)
                if kind in BUILTIN_KINDS and c[0] in ('n', 'a', 't') and not op_.startswith('__') and not any(
                        hasattr(t_, op_) for t_ in BUILTIN_KINDS.values()) and not guarded_attr(it):
                    if not (c[0] == 'n' and c[1] not in BUILTIN_KINDS):
                        findings.append(Finding('attribute-exists', ev.where, kind + '.' + op_, 'a %s has no %s' % (
                            kind, op_), it.chain()))
            elif k == 'NOMETHOD':
                if not known_attr(ev.args[1], ev.args[2]) and not guarded_attr(it):
                    findings.append(Finding('attribute-exists', ev.where, '%s.%s' % ev.args[1:3], '%s has no method %s' %
                                            ev.args[1:3], it.chain()))
            elif k == 'LOAD':
                b, attr = ev.args[:2]
                c = it.cls(st, b)
                if c is not None and isinstance(attr, str) and not known_attr(c.name, attr) and not guarded_attr(it):
                    findings.append(Finding('attribute-exists', ev.where, '%s.%s' % (c.name, attr),
                                            '%s has no attribute %s' % (c.name, attr), it.chain()))
            elif k == 'ARITY':
                findings.append(Finding('attribute-exists', ev.where, 'call ' + ev.args[0], '%s does not accept %d positional '
                                        'arguments and the keywords (%s)' % (ev.args[0], ev.args[1], ', '.join(ev.args[2])),
                                        it.chain()))
            elif k == 'GETATTR':
                pass

        def guarded_attr(it):
            return any(t and (set(t) & {'AttributeError', 'Exception', 'BaseException', '*'}) if not isinstance(t, str)
                       else t in ('AttributeError', 'Exception', 'BaseException', '*') for t in it.tries)

        it = Interp(prog, atoms=at, cap=cap, observers=[o])
        it.run(f)
        return pack(it, findings, [('attribute-exists', f.module.name + ':' + f.qual)])

    sweep(ck, entries(prog, private=True), job, label=lambda f: f.qual)

    # module attributes by syntax, so that code the interpreter does not follow is covered too
    for m in prog.modules.values():
        aliases = {}
        for n, guarded in live_nodes(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    aliases[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        rebound = {n.id for n in ast.walk(m.tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {
            a.arg for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.Lambda))
            for a in n.args.args + n.args.kwonlyargs}
        for n, guarded in live_nodes(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in aliases and \
                    n.value.id not in rebound and isinstance(n.ctx, ast.Load) and not guarded:
                d = aliases[n.value.id]
                if d.split('.')[0] == 'metatab':
                    continue
                if std_has(d + '.' + n.attr) is False and n.attr not in ('path', 'abc', 'parse', 'request', 'error',
                                                                           'util', 'metadata', 'resources'):
                    ck.fail('attribute-exists', (m.path, m.name, n.lineno), d + '.' + n.attr,
                            'the standard library has no %s.%s' % (d, n.attr))

    # methods by name, so that calls on objects of unknown classes are covered too
    own = set(stored)
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                own.add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                own.add(n.id)
            elif isinstance(n, ast.alias):
                own.add(n.asname or n.name.split('.')[0])
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                own.add(n.value)
    for m in prog.modules.values():
        for n, guarded in live_nodes(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and not guarded:
                a = n.func.attr
                ck.ob('attribute-exists', '%s: call of .%s' % (m.name, a))
                if a not in own and not anywhere(prog, m, a):
                    ck.fail('attribute-exists', (m.path, m.name, n.lineno), '.' + a,
                            'no class of the package, the standard library or the dependencies has a method %s' % a)
        for f in [n for n in ast.walk(m.tree) if isinstance(n, ast.FunctionDef)]:
            for name, at_ in unbound(f):
                ck.fail('name-defined', (m.path, f.name, at_), name, 'the variable %s of %s may not have been assigned' % (name, f.name))

    # entry points
    p = os.path.join(prog.root, 'setup.py')
    tree = ast.parse(open(p, encoding='utf8').read())
    for n in ast.walk(tree):
        if isinstance(n, ast.keyword) and n.arg == 'entry_points':
            for c in ast.walk(n.value):
                if isinstance(c, ast.Constant) and isinstance(c.value, str) and '=' in c.value:
                    name, _, target = c.value.partition('=')
                    target = target.split('[')[0].strip()
                    mod, _, obj = target.partition(':')
                    ck.ob('entry-point', target)
                    mod, obj = mod.strip(), obj.strip()
                    m = prog.modules.get(mod)
                    why = None
                    if m is None:
                        why = 'there is no module %s' % mod
                    else:
                        head, *rest = obj.split('.')
                        r = prog.resolve_global(m, head)
                        if r is None or (r[0] == 'g' and hasattr(builtins, head) and head not in m.imports):
                            why = 'the module %s has no %s' % (mod, obj)
                        elif rest and r[0] == 'C' and prog.classes[r[1]].find(rest[0]) is None:
                            why = '%s has no %s' % (head, rest[0])
                    if why:
                        ck.fail('entry-point', ('setup.py', 'setup', c.lineno), c.value, 'entry point %r: %s' % (c.value, why))
