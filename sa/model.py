"""Program model of the analysed package: modules, classes, functions and name resolution.

Everything is read from the source text with `ast`; nothing of the analysed package is imported or run.
"""
import ast
import builtins
import os

PKG = 'metatab'


class AnalysisError(Exception):
    """The analysis cannot give an answer (a vanished anchor, unparsable source, ...)."""


class Func:
    def __init__(self, module, qual, node, cls=None, outer=None):
        self.module = module
        self.qual = qual            # 'MetatabDoc.find', 'slugify', 'MetatabDoc.find.in_section'
        self.node = node
        self.cls = cls              # ClassInfo or None
        self.outer = outer          # enclosing Func or None
        self.name = getattr(node, 'name', '<lambda>')
        decos = [ast.unparse(d) for d in getattr(node, 'decorator_list', [])]
        self.decorators = decos
        self.is_property = any(d == 'property' or d.endswith('cached_property') for d in decos)
        self.is_cached_property = any(d.split('(')[0].endswith('cached_property') for d in decos)
        self.is_setter = any(d.endswith('.setter') for d in decos)
        self.is_deleter = any(d.endswith('.deleter') for d in decos)
        self.is_classmethod = 'classmethod' in decos
        self.is_staticmethod = 'staticmethod' in decos
        self.is_cached = self.is_cached_property or any(
            d.split('(')[0].split('.')[-1] in ('lru_cache', 'cache') for d in decos)
        self.is_generator = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and _has_yield(node)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return '<Func %s:%s>' % (self.module.name, self.qual)


def _has_yield(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, module, name, node):
        self.module = module
        self.name = name
        self.node = node
        self.methods = {}       # name -> Func (getter for properties)
        self.setters = {}       # name -> Func
        self.attrs = {}         # class-level name -> ast expr
        self.bases = []         # resolved: ClassInfo or dotted string of an external class
        self._mro = None

    def mro(self):
        if self._mro is None:
            out, seen = [], set()

            def rec(c):
                if isinstance(c, ClassInfo):
                    if c.name in seen:
                        return
                    seen.add(c.name)
                    out.append(c)
                    for b in c.bases:
                        rec(b)
                else:
                    out.append(c)
            rec(self)
            self._mro = out
        return self._mro

    def find(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo):
                if name in c.setters:
                    return c.setters[name]
                if name in c.methods:
                    return None
        return None

    def find_attr(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_sub(self, name):
        return any((c.name if isinstance(c, ClassInfo) else c.split('.')[-1]) == name for c in self.mro())

    def external_bases(self):
        return [c for c in self.mro() if not isinstance(c, ClassInfo)]

    def __repr__(self):
        return '<Class %s>' % self.name


class Module:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.funcs = {}
        self.classes = {}
        self.imports = {}       # local name -> ('mod', dotted) | ('from', dotted module, name)
        self.star = []          # modules imported with *
        self.assigns = {}       # name -> list of ast expr (None for non-simple)


class Program:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.funcs = {}         # 'module:qual' -> Func
        self.classes = {}       # class name -> ClassInfo (package class names are unique here)
        self.load()

    def load(self):
        pkgdir = os.path.join(self.root, PKG)
        if not os.path.isdir(pkgdir):
            raise AnalysisError('no package %s' % pkgdir)
        files = []
        for base, dirs, names in os.walk(pkgdir):
            dirs[:] = sorted(d for d in dirs if d not in ('test', 'tests', '__pycache__') and not d.startswith('.'))
            for n in sorted(names):
                if n.endswith('.py'):
                    files.append(os.path.join(base, n))
        for path in files:
            rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, '.')
            if rel.endswith('.__init__'):
                rel = rel[:-9]
            with open(path, encoding='utf8') as f:
                src = f.read()
            try:
                tree = ast.parse(src, path)
            except SyntaxError as e:
                raise AnalysisError('cannot parse %s: %s' % (path, e))
            self.modules[rel] = Module(rel, os.path.relpath(path, self.root), tree, src)
        for m in self.modules.values():
            self._scan_module(m)
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                if r and r[0] == 'C':
                    c.bases.append(self.classes[r[1]])
                elif r and r[0] == 'g':
                    c.bases.append(r[1])
                else:
                    c.bases.append(ast.unparse(b))

    def _scan_module(self, m):
        def absolute(node):
            if node.level:
                parts = m.name.split('.')
                if not m.path.endswith('__init__.py'):
                    parts = parts[:-1]
                parts = parts[:len(parts) - (node.level - 1)]
                return '.'.join(parts + ([node.module] if node.module else []))
            return node.module

        def scan(stmts):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.imports[a.asname] = ('mod', a.name)
                        else:
                            m.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    mod = absolute(s)
                    for a in s.names:
                        if a.name == '*':
                            m.star.append(mod)
                        else:
                            m.imports[a.asname or a.name] = ('from', mod, a.name)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m, s.name, s)
                    m.funcs[s.name] = f
                    self._register(f)
                elif isinstance(s, ast.ClassDef):
                    self._scan_class(m, s)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    targets = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in targets:
                        if isinstance(t, ast.Name):
                            m.assigns.setdefault(t.id, []).append(
                                s.value if not isinstance(s, ast.AugAssign) else None)
                        else:
                            for n in ast.walk(t):
                                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                    m.assigns.setdefault(n.id, []).append(None)
                elif isinstance(s, ast.If):
                    scan(s.body)
                    scan(s.orelse)
                elif isinstance(s, ast.Try):
                    scan(s.body)
                    for h in s.handlers:
                        scan(h.body)
                    scan(s.orelse)
                    scan(s.finalbody)
                elif isinstance(s, (ast.With, ast.For, ast.While)):
                    if isinstance(s, ast.For):
                        for n in ast.walk(s.target):
                            if isinstance(n, ast.Name):
                                m.assigns.setdefault(n.id, []).append(None)
                    if isinstance(s, ast.With):
                        for it in s.items:
                            if it.optional_vars is not None:
                                for n in ast.walk(it.optional_vars):
                                    if isinstance(n, ast.Name):
                                        m.assigns.setdefault(n.id, []).append(None)
                    scan(s.body)
        scan(m.tree.body)

    def _register(self, f):
        self.funcs[f.module.name + ':' + f.qual] = f

    def _scan_class(self, m, node):
        c = ClassInfo(m, node.name, node)
        m.classes[node.name] = c
        self.classes[node.name] = c
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, node.name + '.' + s.name, s, cls=c)
                if f.is_setter or f.is_deleter:
                    f.qual = f.qual + ('.setter' if f.is_setter else '.deleter')
                    if f.is_setter:
                        c.setters[s.name] = f
                else:
                    c.methods[s.name] = f
                self._register(f)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
                        # name = property(getter, setter)
                        v = s.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                            get = v.args[0] if v.args else None
                            if isinstance(get, ast.Name) and get.id in c.methods:
                                g = c.methods[get.id]
                                p = Func(m, node.name + '.' + t.id, g.node, cls=c)
                                p.is_property = True
                                c.methods[t.id] = p
                                del c.attrs[t.id]
                                if len(v.args) > 1 and isinstance(v.args[1], ast.Name) and v.args[1].id in c.methods:
                                    c.setters[t.id] = c.methods[v.args[1].id]
                        elif isinstance(v, ast.Name) and v.id in c.methods:
                            # alias of a method
                            c.methods[t.id] = c.methods[v.id]
                            del c.attrs[t.id]
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                c.attrs[s.target.id] = s.value

    # -- name resolution ----------------------------------------------------------------------

    def resolve_global(self, m, name, seen=()):
        """Resolve a module-level name. Returns one of
        ('F', func key), ('C', class name), ('M', package module), ('G', module, name) for a package
        global variable, ('g', dotted) for something external or builtin, or None when it does not exist."""
        key = (m.name, name)
        if key in seen:
            return None
        seen = seen + (key,)
        if name in m.funcs:
            return ('F', m.name + ':' + name)
        if name in m.classes:
            return ('C', name)
        if name in m.assigns and not (name in m.imports):
            if hasattr(builtins, name) and name == 'FileNotFoundError':
                return ('g', name)
            return ('G', m.name, name)
        if name in m.imports:
            imp = m.imports[name]
            return self.resolve_import(imp, seen)
        for sm in m.star:
            if sm in self.modules:
                r = self.resolve_global(self.modules[sm], name, seen)
                if r is not None and not (r[0] == 'g' and hasattr(builtins, name)):
                    return r
        if hasattr(builtins, name):
            return ('g', name)
        if name in ('__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__'):
            return ('g', '__module__.' + name)
        return None

    def resolve_import(self, imp, seen=()):
        if imp[0] == 'mod':
            dotted = imp[1]
            if dotted in self.modules:
                return ('M', dotted)
            return ('g', dotted)
        _, mod, name = imp
        if mod in self.modules:
            sub = mod + '.' + name
            r = self.resolve_global(self.modules[mod], name, seen)
            if r is not None and not (r[0] == 'g' and '.' not in r[1] and name not in self.modules[mod].imports):
                return r
            if sub in self.modules:
                return ('M', sub)
            return r
        return ('g', mod + '.' + name)

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve_global(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value)
            if r is None:
                return None
            if r[0] == 'M':
                r2 = self.resolve_global(self.modules[r[1]], e.attr)
                if r2 is None and r[1] + '.' + e.attr in self.modules:
                    return ('M', r[1] + '.' + e.attr)
                return r2
            if r[0] == 'g':
                return ('g', r[1] + '.' + e.attr)
        return None

    # -- anchors ------------------------------------------------------------------------------

    def func(self, module, qual, required=True):
        f = self.funcs.get(module + ':' + qual)
        if f is None and '.' in qual:
            cname, mname = qual.split('.', 1)
            c = self.classes.get(cname)
            if c is not None:
                if mname.endswith('.setter'):
                    f = c.find_setter(mname[:-7])
                else:
                    f = c.find(mname)
        if f is None and '.' not in qual:
            m = self.modules.get(module)
            if m is not None:
                r = self.resolve_global(m, qual)
                if r and r[0] == 'F':
                    f = self.funcs[r[1]]
        if f is None and required:
            raise AnalysisError('anchor %s:%s has vanished' % (module, qual))
        return f

    def method(self, cname, mname, required=True):
        c = self.classes.get(cname)
        if c is None:
            if required:
                raise AnalysisError('class %s has vanished' % cname)
            return None
        f = c.find(mname)
        if f is None and required:
            raise AnalysisError('anchor %s.%s has vanished' % (cname, mname))
        return f

    def all_funcs(self):
        """Every function and method of the package, nested ones excluded."""
        return list(self.funcs.values())
