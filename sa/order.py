"""Where unspecified order and unrepeatable values come from, and what they reach.

A flow-sensitive analysis of kinds.  A value has a set of kinds:
  S   a set: its elements are fixed, their order is not          L   a sequence, iterator or dict in an unspecified order
  R   a value that another run may not repeat                    I   the identity of an object (id)
  ES  a container of sets                                        EL  a container of sequences in an unspecified order
  X   depends on the element of a loop over a set, inside of that loop
Each is (kind, origin) with the place where it came from.  Calls into the package are followed with the kinds of the arguments.
"""
import ast

SETOPS = (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)
SETMETH = {'union', 'difference', 'intersection', 'symmetric_difference', 'copy'}
KEEP = {'list': 'L', 'tuple': 'L', 'iter': 'L', 'enumerate': 'L', 'reversed': 'L', 'zip': 'L', 'dict': 'L', 'filter': 'L', 'map': 'L',
        'collections.OrderedDict': 'L', 'itertools.chain': 'L', 'itertools.chain.from_iterable': 'L', 'itertools.islice': 'R',
        'dict.fromkeys': 'L', 'collections.OrderedDict.fromkeys': 'L', 'collections.deque': 'L', 'itertools.groupby': 'L',
        'itertools.product': 'L', 'itertools.permutations': 'L', 'itertools.combinations': 'L', 'copy.copy': '=',
        'copy.deepcopy': '=', 'itertools.takewhile': 'R', 'itertools.dropwhile': 'R', 'next': 'R', 'str': 'R', 'repr': 'R',
        'json.dumps': 'R', 'yaml.dump': 'R', 'yaml.safe_dump': 'R', 'format': 'R', 'ascii': 'R', 'pprint.pformat': 'R',
        'functools.reduce': 'R', 'itertools.zip_longest': 'L', 'itertools.accumulate': 'L', 'itertools.starmap': 'L',
        'heapq.merge': 'L', 'typing.cast': '='}
CLEAN = {'len', 'bool', 'any', 'all', 'sum', 'min', 'max', 'isinstance', 'type', 'hasattr', 'callable', 'math.fsum', 'issubclass'}
RANDOM = ('random.', 'secrets.', 'time.', 'uuid.uuid', 'numpy.random.', 'tempfile.')
UNREPEATED = {'os.getpid', 'os.getppid', 'os.urandom', 'hash', 'threading.get_ident', 'socket.gethostname', 'platform.node',
              'getpass.getuser', 'os.getlogin', 'uuid.getnode', 'datetime.datetime.now', 'datetime.datetime.utcnow',
              'datetime.datetime.today', 'datetime.date.today', 'os.times', 'object', 'os.getrandom', 'os.cpu_count',
              'multiprocessing.current_process', 'threading.current_thread', 'resource.getrusage', 'tracemalloc.get_traced_memory'}
NOTIME = {'time.sleep', 'time.strptime', 'time.mktime', 'time.struct_time', 'random.seed', 'tempfile.gettempdir'}
LISTINGS = {'os.listdir', 'glob.glob', 'glob.iglob', 'os.scandir'}
LISTMETH = {'iterdir', 'rglob'}
GROW = {'append', 'insert', 'extend', 'appendleft', 'extendleft', 'setdefault', 'update', 'write', 'writelines', 'writerow', 'writerows',
        'move_to_end', 'put', '__setitem__', '__iadd__'}
OUTPUT = {'write', 'writelines', 'writerow', 'writerows'}
LOGGING = {'debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'warn'}
PRINTERS = {'prt', 'err', 'warn'}
EXEMPT_ATTRS = {'_mtime', 'mtime'}
MAXDEPTH = 60


def kinds(v, *names):
    return {k for k in v if k[0] in names}


def strip_x(v):
    return frozenset(k for k in v if k[0] != 'X')


def as_(v, kind):
    return frozenset((kind, k[1]) for k in v)


NOTHING = frozenset()


class Order:
    def __init__(self, prog):
        self.prog = prog
        self.attrs = {}             # (class name, attr) -> kinds
        self.globals = {}
        self.findings = {}
        self.obs = set()
        self.functions = set()
        self.memo = {}
        self.prev = {}
        self.active = []
        self.changed = False
        self.collect = True
        self.byname = {}
        for f in prog.funcs.values():
            if f.cls is not None and not f.is_setter and not f.is_deleter:
                self.byname.setdefault(f.node.name, []).append(f)
        self.setters = {}
        for f in prog.funcs.values():
            if f.is_setter:
                self.setters.setdefault(f.node.name, []).append(f)
        self.loads = set()

    # ---- whole program

    def run(self, skip=()):
        for n in range(8):
            self.changed = False
            self.prev, self.memo = self.memo, {}
            self.findings = {}
            for m in self.prog.modules.values():
                fr = Frame(self, None, m, {})
                fr.block([s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef))])
                for k, v in fr.env.items():
                    if isinstance(v, frozenset):
                        self.join(self.globals, (m.name, k), strip_x(v))
                for c in m.classes.values():
                    fr = Frame(self, None, m, {})
                    fr.block([s for s in c.node.body if isinstance(s, (ast.Assign, ast.AnnAssign))])
                    for k, v in fr.env.items():
                        if isinstance(v, frozenset):
                            self.join(self.attrs, (c.name, k), strip_x(v))
            for k in sorted(self.prog.funcs):
                f = self.prog.funcs[k]
                if f in skip:
                    continue
                self.functions.add(f.qual)
                ret = self.call(f, {}, False)
                if self.public(f):
                    self.returned(f, ret)
            if not self.changed:
                return
        return

    def public(self, f):
        n = f.node.name
        return not n.startswith('_') or n.startswith('__') and n.endswith('__')

    def returned(self, f, ret):
        if f.node.name in ('__hash__',) or f.node.name in EXEMPT_ATTRS:
            return
        self.obs.add(('result', f.qual))
        for k in sorted(kinds(ret, 'L', 'R', 'EL'), key=str):
            what = 'its result is in the order of' if k[0] != 'R' else 'its result depends on'
            self.find('result', (f.module.path, f.qual, f.node.lineno), k, '%s %s' % (what, k[1][1]))

    def find(self, rule, where, k, msg):
        src = '%s:%d' % (k[1][0], k[1][2])
        self.findings.setdefault((rule, where[1], k[1][1]), (rule, where, k[1][1], msg + ' (%s)' % src))

    def join(self, table, key, v):
        old = table.get(key, NOTHING)
        if not v <= old:
            table[key] = old | v
            self.changed = True

    # ---- attributes

    def load(self, cls, attr):
        out = NOTHING
        if cls is not None:
            names = {c.name for c in cls.mro() if hasattr(c, 'name')}
            names |= {c.name for c in self.prog.classes.values() if cls in c.mro()}
        else:
            names = None
        for (c, a), v in self.attrs.items():
            if a == attr and (names is None or c in names):
                out |= v
        fs = []
        if cls is not None:
            f = cls.find(attr)
            if f is not None:
                fs = [f]
            fs += [g for g in self.byname.get(attr, ()) if g not in fs and cls in g.cls.mro()]
        else:
            fs = self.byname.get(attr, [])
        for f in fs:
            if f.is_property:
                out |= self.call(f, {}, False)
        return out

    # ---- functions

    def call(self, f, args, inloop):
        """The kinds of the result; args: parameter -> kinds."""
        key = (f.module.name, f.qual, tuple(sorted((k, tuple(sorted(v, key=str))) for k, v in args.items() if v)), inloop)
        if key in self.memo:
            return self.memo[key]
        if key in self.active or len(self.active) > MAXDEPTH:
            return self.prev.get(key, NOTHING)
        self.active.append(key)
        self.memo[key] = self.prev.get(key, NOTHING)
        fr = Frame(self, f, f.module, dict(args))
        fr.inloop = inloop
        fr.block(f.node.body)
        self.active.pop()
        self.memo[key] = fr.ret | self.prev.get(key, NOTHING)
        if self.memo[key] != self.prev.get(key, NOTHING):
            self.changed = True
        return self.memo[key]


class Frame:
    def __init__(self, o, f, module, env):
        self.o, self.f, self.module = o, f, module
        self.env = env
        self.ret = NOTHING
        self.inloop = False
        self.loops = []             # the unordered loops around the current statement
        self.locals = set(env)
        self.fresh = set()
        self.imports = {}
        self.idents = set()         # local names bound to a term that is looked up by the name of an identifier
        if f is not None:
            a = f.node.args
            self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        else:
            self.params = set()

    @property
    def hot(self):
        return self.inloop or bool(self.loops)

    def where(self, n):
        return (self.module.path, self.f.qual if self.f is not None else '<module>', getattr(n, 'lineno', 0))

    def origin(self, n):
        return (self.module.path, ast.unparse(n)[:80], getattr(n, 'lineno', 0))

    # ---- statements

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def branch(self, *blocks):
        start = self.env
        outs = []
        for b in blocks:
            self.env = dict(start)
            self.block(b)
            if not (b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))):
                outs.append(self.env)
            elif isinstance(b[-1], (ast.Continue, ast.Break)):
                outs.append(self.env)
        if not outs:
            outs = [start]
        self.env = merge(outs)

    def stmt(self, s):
        if isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(s.target)
            v = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                if self.hot and kinds(v, 'X') and isinstance(s.op, ast.Add):
                    self.env[s.target.id] = old | as_(kinds(v, 'X'), 'L')
                elif kinds(old, 'S'):
                    pass
                else:
                    self.env[s.target.id] = old | self.seq(v)
            elif not kinds(old, 'S'):
                self.assign(s.target, old | self.seq(v), s.value, grow=True)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value) if s.value is not None else NOTHING
            if self.loops:
                v = strip_x(v) | as_(kinds(v, 'X'), 'R')
            self.ret |= v
        elif isinstance(s, ast.If):
            self.test(s.test)
            self.branch(s.body, s.orelse)
        elif isinstance(s, ast.While):
            self.test(s.test)
            for _ in range(2):
                self.branch(s.body, [])
                self.test(s.test)
            self.block(s.orelse)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.loop(s)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, i.context_expr)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            start = dict(self.env)
            self.block(s.body)
            mid = merge([start, self.env])
            self.block(s.orelse)
            outs = [self.env]
            for h in s.handlers:
                self.env = dict(mid)
                if h.name:
                    self.env[h.name] = NOTHING
                self.block(h.body)
                if not (h.body and isinstance(h.body[-1], (ast.Return, ast.Raise))):
                    outs.append(self.env)
            self.env = merge(outs)
            self.block(s.finalbody)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                v = self.ev(s.exc)
                bad = kinds(v, 'R', 'L', 'S') or kinds(v, 'X')
                for k in sorted(bad, key=str)[:1]:
                    self.o.obs.add(('error', '%s: %s' % (self.where(s)[1], ast.unparse(s)[:80])))
                    self.o.find('error', self.where(s), k, 'the error that is raised depends on %s' % k[1][1])
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.env[s.name] = ('def', s)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            self.import_(s)
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
        elif isinstance(s, ast.Delete):
            pass
        elif hasattr(ast, 'Match') and isinstance(s, ast.Match):
            self.test(s.subject)
            self.branch(*[c.body for c in s.cases])

    def import_(self, s):
        if isinstance(s, ast.Import):
            for a in s.names:
                self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        else:
            for a in s.names:
                self.imports[a.asname or a.name] = (s.module or '') + '.' + a.name if not s.level else None
            if s.level or (s.module or '').startswith('metatab'):
                for a in s.names:
                    self.imports.pop(a.asname or a.name, None)

    def test(self, e):
        v = self.ev(e)
        for k in sorted(kinds(v, 'R'), key=str)[:1]:
            self.o.find('decision', self.where(e), k, 'a decision depends on %s' % k[1][1])

    def loop(self, s):
        v = self.ev(s.iter)
        un = kinds(v, 'S', 'L')
        xs = as_(kinds(v, 'ES'), 'S') | as_(kinds(v, 'EL'), 'L') | frozenset(kinds(v, 'R', 'X'))
        if not un:
            for _ in range(2):
                self.assign(s.target, xs, None)
                self.branch(s.body, [])
            self.block(s.orelse)
            return
        self.o.obs.add(('loop', '%s: for %s in %s' % (self.where(s)[1], ast.unparse(s.target), ast.unparse(s.iter)[:60])))
        self.loops.append(s)
        before = dict(self.env)
        for _ in range(2):
            self.assign(s.target, xs | as_(un, 'X'), None)
            self.branch(s.body, [])
        self.loops.pop()
        if not self.hot:
            for k, w in self.env.items():
                if isinstance(w, frozenset) and kinds(w, 'X'):
                    self.env[k] = strip_x(w) | as_(kinds(w, 'X'), 'R')
        self.block(s.orelse)

    # ---- stores

    def rooted(self, e):
        """The name that the target of a store or a mutation belongs to."""
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            e = e.func if isinstance(e, ast.Call) else e.value
        return e.id if isinstance(e, ast.Name) else None

    def assign(self, t, v, src, grow=False):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            self.locals.add(t.id)
            self.fresh.discard(t.id)
            self.idents.discard(t.id)
            if src is not None:
                if isinstance(src, (ast.List, ast.Dict, ast.ListComp, ast.DictComp, ast.Set, ast.SetComp, ast.Tuple, ast.Constant,
                                    ast.JoinedStr)) or isinstance(src, ast.Call) and (
                        self.dotted(src.func) or '') in ('list', 'dict', 'set', 'tuple', 'collections.OrderedDict', 'sorted',
                                                        'collections.defaultdict', 'collections.Counter', 'str'):
                    self.fresh.add(t.id)
                if self.names_identifier(src):
                    self.idents.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            one = len(t.elts) == 1 and not isinstance(t.elts[0], ast.Starred)
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(
                    isinstance(e, ast.Starred) for e in list(src.elts) + list(t.elts)):
                for e, w in zip(t.elts, src.elts):
                    self.assign(e, self.ev(w), w)
                return
            w = v if src is None else frozenset(kinds(v, 'R', 'X')) | as_(kinds(v, 'ES'), 'S') | as_(kinds(v, 'EL'), 'L')
            if src is not None and not one:
                w |= as_(kinds(v, 'S', 'L'), 'R')
            for e in t.elts:
                self.assign(e.value if isinstance(e, ast.Starred) else e, w, None)
        elif isinstance(t, ast.Attribute):
            self.store_attr(t, v, grow)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            k = self.ev(t.slice)
            self.grow(t.value, k | v, t, stored=v, keyed=True, key=k)

    def names_identifier(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.lower().split('.')[-1] == 'identifier':
                return True
            if isinstance(n, ast.Name) and n.id in self.idents:
                return True
            if isinstance(n, ast.Name):
                r = self.o.prog.resolve_global(self.module, n.id)
                if r is not None and r[0] == 'G':
                    vs = self.o.prog.modules[r[1]].assigns.get(r[2], [])
                    if any(isinstance(w, ast.Constant) and isinstance(w.value, str) and
                           w.value.lower().split('.')[-1] == 'identifier' for w in vs if w is not None):
                        return True
        return False

    def store_attr(self, t, v, grow=False):
        a = t.attr
        base = self.ev(t.value)
        cls = self.f.cls if self.f is not None and isinstance(t.value, ast.Name) and self.f.params[:1] == [t.value.id] else None
        for f in self.o.setters.get(a, ()):
            if cls is None or f.cls in cls.mro() or cls in f.cls.mro():
                ps = f.params
                self.o.call(f, {ps[1]: v} if len(ps) > 1 else {}, self.hot)
        if self.names_identifier(t.value) or self.identifier_call:
            v = frozenset(k for k in v if not (k[0] == 'R' and 'uuid' in k[1][1]))
        self.o.obs.add(('kept', '%s: %s' % (self.where(t)[1], ast.unparse(t))))
        if kinds(v, 'X') and not kinds(base, 'X') and self.hot:
            root = self.rooted(t.value)
            for k in sorted(kinds(v, 'X'), key=str)[:1]:
                self.o.find('kept', self.where(t), k, 'which element is kept in %s depends on the order of %s' % (ast.unparse(t), k[1][1]))
        v = strip_x(v)
        if not a.startswith('_') and a not in EXEMPT_ATTRS:
            for k in sorted(kinds(v, 'L', 'R', 'EL'), key=str)[:1]:
                self.o.find('kept', self.where(t), k, '%s %s %s' % (
                    ast.unparse(t), 'depends on' if k[0] == 'R' else 'is in the order of', k[1][1]))
        self.o.join(self.o.attrs, (cls.name if cls is not None else '*', a), v)

    identifier_call = False

    def seq(self, v):
        return frozenset(('L' if k[0] == 'S' else k[0], k[1]) for k in v)

    def grow(self, target, v, node, stored=NOTHING, keyed=False, key=NOTHING, set_=False):
        """v is put into the container `target`."""
        bad = kinds(v, 'X') if self.hot else set()
        order = kinds(v, 'R') | (kinds(v, 'S', 'L') if not set_ and not keyed else set())
        if keyed:
            order = kinds(stored, 'R', 'L') | kinds(key, 'R')
        base = self.ev(target)
        if set_:
            extra = frozenset(kinds(v, 'R'))
        else:
            extra = as_(bad, 'L') | as_(order - kinds(v, 'R') if not keyed else kinds(stored, 'L'), 'EL' if keyed else 'L') | \
                frozenset(kinds(v, 'R'))
        if keyed or True:
            extra |= as_(kinds(stored, 'S'), 'ES')
        if isinstance(target, ast.Name) and (target.id in self.fresh or target.id not in self.params and target.id in self.locals
                                             and target.id not in self.o.globals):
            if extra:
                self.env[target.id] = (self.env.get(target.id) if isinstance(self.env.get(target.id), frozenset) else NOTHING) | extra
            if not (bad and target.id not in self.fresh and not kinds(base, 'X')):
                return
            if target.id in self.locals and self.alias_of_local(target.id):
                return
        if isinstance(target, ast.Attribute) or isinstance(target, ast.Subscript) or isinstance(target, ast.Name) or \
                isinstance(target, ast.Call):
            if kinds(base, 'X') and not kinds(v, 'R'):
                # an element of the loop gets something of its own
                return
            inner = target
            while isinstance(inner, ast.Subscript):
                inner = inner.value
            if isinstance(inner, ast.Attribute):
                cls = self.f.cls if self.f is not None and isinstance(inner.value, ast.Name) and self.f.params[:1] == [inner.value.id] else None
                if inner.attr in EXEMPT_ATTRS:
                    return
                self.o.join(self.o.attrs, (cls.name if cls is not None else '*', inner.attr), strip_x(frozenset(
                    k for k in extra if inner.attr.startswith('_') or k[0] in ('ES', 'S'))))
                if inner.attr.startswith('_') and not kinds(extra, 'R'):
                    return
                if isinstance(inner.value, ast.Name) and inner.value.id in self.fresh and inner.value.id in self.locals:
                    return
            if isinstance(inner, ast.Name) and inner.id in self.locals and inner.id not in self.params and inner is not target:
                if extra:
                    self.env[inner.id] = (self.env.get(inner.id) if isinstance(self.env.get(inner.id), frozenset) else NOTHING) | extra
                return
            for k in sorted(kinds(extra, 'L', 'R', 'EL'), key=str)[:1]:
                self.o.find('kept', self.where(node), k, '%s %s %s' % (
                    ast.unparse(target), 'gets a value that depends on' if k[0] == 'R' else 'gets its elements in the order of', k[1][1]))

    def alias_of_local(self, name):
        return name not in self.params

    # ---- expressions

    def dotted(self, e):
        """The dotted name of an external function or class."""
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return None
            if e.id in self.imports:
                return self.imports[e.id]
            r = self.o.prog.resolve_global(self.module, e.id)
            return r[1] if r is not None and r[0] == 'g' else None
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return b + '.' + e.attr if b else None
        return None

    def ev(self, e):
        if e is None:
            return NOTHING
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m is not None:
            return m(e)
        out = NOTHING
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.ev(c)
        return out

    def x_Constant(self, e):
        return NOTHING

    def x_Name(self, e):
        v = self.env.get(e.id)
        if isinstance(v, frozenset):
            return v
        if v is None:
            r = self.o.prog.resolve_global(self.module, e.id)
            if r is not None and r[0] == 'G':
                return self.o.globals.get((r[1], r[2]), NOTHING)
        return NOTHING

    def x_Attribute(self, e):
        b = self.ev(e.value)
        d = self.dotted(e)
        if d:
            return NOTHING
        cls = None
        if self.f is not None and self.f.cls is not None and isinstance(e.value, ast.Name) and self.f.params[:1] == [e.value.id]:
            cls = self.f.cls
        v = self.o.load(cls, e.attr)
        return v | frozenset(kinds(b, 'X', 'R'))

    def x_Set(self, e):
        v = self.many(e.elts)
        if len(e.elts) <= 1 and not any(isinstance(c, ast.Starred) for c in e.elts):
            return frozenset(kinds(v, 'R'))
        return frozenset([('S', self.origin(e))]) | frozenset(kinds(v, 'R', 'X'))

    def many(self, es):
        out = NOTHING
        for c in es:
            out |= self.ev(c)
        return out

    def x_Starred(self, e):
        return self.seq(self.ev(e.value))

    def x_List(self, e):
        out = NOTHING
        for c in e.elts:
            v = self.ev(c)
            if isinstance(c, ast.Starred):
                out |= self.seq(v)
            else:
                out |= as_(kinds(v, 'S'), 'ES') | as_(kinds(v, 'L'), 'EL') | frozenset(kinds(v, 'R', 'X', 'ES', 'EL'))
        return out

    x_Tuple = x_List

    def x_Dict(self, e):
        out = NOTHING
        for k, c in zip(e.keys, e.values):
            v = self.ev(c)
            if k is None:
                out |= self.seq(v)
            else:
                out |= as_(kinds(v, 'S'), 'ES') | as_(kinds(v, 'L'), 'EL') | frozenset(kinds(v, 'R', 'X')) | \
                    frozenset(kinds(self.ev(k), 'R', 'X'))
        return out

    def comp(self, e, *parts):
        saved = dict(self.env)
        un = set()
        for g in e.generators:
            v = self.ev(g.iter)
            u = kinds(v, 'S', 'L')
            un |= u
            self.assign(g.target, as_(kinds(v, 'ES'), 'S') | as_(kinds(v, 'EL'), 'L') | frozenset(kinds(v, 'R', 'X')) | as_(u, 'X'), None)
            for c in g.ifs:
                self.ev(c)
        own = as_(un, 'X')
        out = [self.ev(p) for p in parts]
        keep = {k: v for k, v in self.env.items() if k in saved}
        self.env = saved
        for k in saved:
            pass
        return un, own, out

    def listed(self, e):
        un, own, (v,) = self.comp(e, e.elt)
        out = frozenset(k for k in v if k[0] in ('R', 'ES', 'EL')) | as_(kinds(v, 'S'), 'ES') | as_(kinds(v, 'L'), 'EL')
        if un:
            dep = kinds(v, 'X') & own
            out |= as_(dep, 'L') | frozenset(kinds(v, 'X') - own)
        else:
            out |= frozenset(kinds(v, 'X'))
        return out

    x_ListComp = listed
    x_GeneratorExp = listed

    def x_SetComp(self, e):
        un, own, (v,) = self.comp(e, e.elt)
        return frozenset([('S', self.origin(e))]) | frozenset(kinds(v, 'R')) | frozenset(kinds(v, 'X') - own)

    def x_DictComp(self, e):
        un, own, (k, v) = self.comp(e, e.key, e.value)
        out = frozenset(kinds(v, 'R')) | frozenset(kinds(k, 'R')) | as_(kinds(v, 'S'), 'ES') | as_(kinds(v, 'L'), 'EL')
        x = kinds(k, 'X') | kinds(v, 'X')
        if un:
            out |= as_(x & own, 'L') | frozenset(x - own)
        else:
            out |= frozenset(x)
        return out

    def x_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, SETOPS):
            view = any(self.is_view(w) for w in (e.left, e.right))
            if kinds(a, 'S') or kinds(b, 'S') or view:
                if isinstance(e.op, ast.Sub) and not kinds(a, 'S') and not self.is_view(e.left):
                    return a | b
                return frozenset([('S', self.origin(e))]) | frozenset(kinds(a | b, 'R', 'X'))
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return as_(kinds(b, 'S', 'L', 'ES', 'EL', 'R', 'I'), 'R') | frozenset(kinds(b, 'X'))
        return a | b

    def is_view(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('keys', 'items') and not e.args

    def x_JoinedStr(self, e):
        out = NOTHING
        for c in e.values:
            v = self.ev(c)
            out |= as_(kinds(v, 'S', 'L', 'ES', 'EL', 'R', 'I'), 'R') | frozenset(kinds(v, 'X'))
        return out

    def x_FormattedValue(self, e):
        return self.ev(e.value)

    def x_Compare(self, e):
        vs = [self.ev(e.left)] + [self.ev(c) for c in e.comparators]
        out = NOTHING
        for v in vs:
            out |= frozenset(kinds(v, 'R'))
            if any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in e.ops):
                out |= as_(kinds(v, 'I'), 'R')
        return out | frozenset(k for v in vs for k in kinds(v, 'X'))

    def x_BoolOp(self, e):
        out = NOTHING
        for c in e.values:
            out |= self.ev(c)
        return out

    def x_UnaryOp(self, e):
        v = self.ev(e.operand)
        return frozenset(kinds(v, 'R', 'X'))

    def x_IfExp(self, e):
        self.test(e.test)
        return self.ev(e.body) | self.ev(e.orelse)

    def x_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e.value)
        return v

    def x_Subscript(self, e):
        b = self.ev(e.value)
        k = self.ev(e.slice)
        out = as_(kinds(b, 'ES'), 'S') | as_(kinds(b, 'EL'), 'L') | frozenset(kinds(b, 'R', 'X')) | frozenset(kinds(k, 'R', 'X'))
        i = e.slice
        if isinstance(i, ast.UnaryOp):
            i = i.operand
        if isinstance(i, ast.Slice) or isinstance(i, ast.Constant) and isinstance(i.value, int):
            out |= as_(kinds(b, 'L'), 'R')
        return out

    def x_Lambda(self, e):
        return NOTHING

    def x_Yield(self, e):
        v = self.ev(e.value)
        out = as_(kinds(v, 'S'), 'ES') | as_(kinds(v, 'L'), 'EL') | frozenset(kinds(v, 'R', 'ES', 'EL'))
        out |= as_(kinds(v, 'X'), 'L') if self.loops else frozenset(kinds(v, 'X'))
        self.ret |= out
        return NOTHING

    def x_YieldFrom(self, e):
        v = self.ev(e.value)
        if self.loops:
            v = strip_x(v) | as_(kinds(v, 'X'), 'L')
        self.ret |= self.seq(v)
        return NOTHING

    def x_Await(self, e):
        return self.ev(e.value)

    # ---- calls

    def key_order(self, e, arg):
        """What sorting by a key leaves open."""
        key = [k.value for k in e.keywords if k.arg == 'key']
        if not key or isinstance(key[0], ast.Constant):
            return NOTHING
        key = key[0]
        d = self.dotted(key)
        if d in ('id', 'hash') or d is not None and any(d.startswith(p) for p in RANDOM):
            return frozenset([('L', self.origin(e))])
        body = None
        if isinstance(key, ast.Lambda):
            body, names = key.body, {a.arg for a in key.args.args}
        else:
            f = None
            if isinstance(key, ast.Name) and isinstance(self.env.get(key.id), tuple) and self.env[key.id][0] == 'def':
                f = self.env[key.id][1]
            if f is not None:
                names = {a.arg for a in f.args.args}
                body = ast.Tuple([n.value for n in ast.walk(f) if isinstance(n, ast.Return) and n.value is not None], ast.Load())
        if body is not None:
            for n in ast.walk(body):
                if isinstance(n, ast.Call) and (self.dotted(n.func) in ('id', 'hash') or any(
                        (self.dotted(n.func) or '').startswith(p) for p in RANDOM)):
                    return frozenset([('L', self.origin(e))])
        un = kinds(arg, 'S', 'L')
        if not un:
            return NOTHING
        if d in ('str', 'repr', 'str.lower', 'str.casefold', 'operator.attrgetter', 'operator.itemgetter'):
            return NOTHING
        if d == 'len':
            return as_(un, 'L')
        if body is not None:
            names = set(names)
            for n in ast.walk(body):
                if isinstance(n, ast.Call) and self.dotted(n.func) == 'len':
                    continue
            parts = body.elts if isinstance(body, ast.Tuple) else [body]
            for p in parts:
                if isinstance(p, ast.Name) and p.id in names or isinstance(p, ast.Call) and self.dotted(p.func) in ('str', 'repr') or \
                        isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ('lower', 'casefold', '__str__'):
                    return NOTHING
            if all(isinstance(p, ast.Constant) or isinstance(p, ast.Call) and self.dotted(p.func) == 'len' for p in parts):
                return as_(un, 'L')
        return NOTHING

    def args(self, e):
        return [self.ev(a) for a in e.args], {k.arg: self.ev(k.value) for k in e.keywords}

    def x_Call(self, e):
        d = self.dotted(e.func)
        args, kw = self.args(e)
        allv = NOTHING
        for v in list(args) + list(kw.values()):
            allv |= v
        x = frozenset(kinds(allv, 'X'))
        r = frozenset(kinds(allv, 'R'))
        a0 = args[0] if args else NOTHING
        if d:
            if d in ('set', 'frozenset', 'builtins.set'):
                if not e.args:
                    return frozenset([('S', self.origin(e))])
                return frozenset([('S', self.origin(e))]) | x | r
            if d == 'sorted' or d.split('.')[-1] in ('nsmallest', 'nlargest'):
                return self.key_order(e, a0) | x | r | frozenset(kinds(allv, 'ES', 'EL'))
            if d in CLEAN:
                if d in ('min', 'max') and any(k.arg == 'key' for k in e.keywords):
                    return as_(self.key_order(e, a0), 'R') | x | r
                return x | r
            if d in LISTINGS:
                return frozenset([('L', self.origin(e))])
            if d == 'os.walk':
                return frozenset([('EL', self.origin(e)), ('L', self.origin(e))])
            if d == 'id':
                return frozenset([('I', self.origin(e))])
            if d in UNREPEATED and not (d == 'hash' and self.f is not None and self.f.node.name == '__hash__') or \
                    any(d.startswith(p) for p in RANDOM) and d not in NOTIME and not (
                        d.split('.')[-1] in ('strftime', 'localtime', 'gmtime', 'ctime', 'asctime') and len(e.args) >
                        (1 if d.endswith('strftime') else 0)) and not d.endswith(('uuid3', 'uuid5')):
                self.o.obs.add(('source', '%s: %s' % (self.where(e)[1], ast.unparse(e)[:60])))
                return frozenset([('R', self.origin(e))])
            if d == 'collections.defaultdict':
                if e.args and self.dotted(e.args[0]) in ('set', 'frozenset'):
                    return frozenset([('ES', self.origin(e))])
                return self.seq(allv)
            if d in KEEP:
                k = KEEP[d]
                if k == '=':
                    return allv
                src = args[1:] if d in ('filter', 'map', 'functools.reduce', 'itertools.starmap') else args
                if d in ('filter', 'map', 'functools.reduce') and e.args:
                    x |= NOTHING
                v = NOTHING
                for w in src:
                    v |= w
                if k == 'L':
                    flat = d.endswith('chain') or d.endswith('from_iterable')
                    o = self.seq(v)
                    if flat:
                        o |= as_(kinds(v, 'ES', 'EL'), 'L')
                    return o
                if d in ('next', 'functools.reduce', 'itertools.islice', 'itertools.takewhile', 'itertools.dropwhile'):
                    return as_(kinds(v, 'L', 'S', 'R'), 'R') | x
                return as_(kinds(v, 'S', 'L', 'ES', 'EL', 'R', 'I'), 'R') | x
            if d == 'print':
                for k in sorted(kinds(allv, 'R', 'L', 'S') | (kinds(allv, 'X') if self.hot else set()), key=str)[:1]:
                    self.o.find('output', self.where(e), k, 'what is printed depends on %s' % k[1][1])
                return NOTHING
            if d in ('setattr',) and len(e.args) == 3:
                self.grow(e.args[0], args[1] | args[2], e, stored=args[2], keyed=True, key=args[1])
                return NOTHING
            if d == 'getattr' and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                return self.ev(ast.copy_location(ast.Attribute(e.args[0], e.args[1].value, ast.Load()), e)) | \
                    (args[2] if len(args) > 2 else NOTHING)
            return x | r | self.text_of(d, allv)
        # methods
        if isinstance(e.func, ast.Attribute):
            out = self.method(e, e.func, args, kw, allv, x, r)
            if out is not None:
                return out
        # functions of the package, and local functions
        fs = self.targets(e)
        if isinstance(e.func, ast.Name):
            b = self.env.get(e.func.id)
            if isinstance(b, tuple) and b[0] == 'def':
                return self.local(b[1], e, args, kw)
        out = x | r
        if isinstance(e.func, ast.Attribute):
            out |= frozenset(kinds(self.ev(e.func.value), 'X', 'R'))
        if fs is None:
            return out
        for f, skip in fs:
            if f != 'class' and f.cls is None and f.node.name in PRINTERS:
                for k in sorted(kinds(allv, 'R', 'L', 'S') | (kinds(allv, 'X') if self.hot else set()), key=str)[:1]:
                    self.o.find('output', self.where(e), k, 'what is printed depends on %s' % k[1][1])
                continue
            if f == 'class':
                init = skip.find('__init__')
                if init is not None:
                    self.bind(init, e, args, kw, 1, fresh=True)
                continue
            out |= self.bind(f, e, args, kw, skip)
        return out

    def text_of(self, d, v):
        return NOTHING

    def local(self, node, e, args, kw):
        """A function defined in this function: run in place."""
        if getattr(self, 'depth', 0) > 3:
            return NOTHING
        saved, ret, loops = self.env, self.ret, self.loops
        self.depth = getattr(self, 'depth', 0) + 1
        self.env = dict(self.env)
        ps = [a.arg for a in node.args.posonlyargs + node.args.args]
        for p in ps + [a.arg for a in node.args.kwonlyargs]:
            self.env[p] = NOTHING
        for p, v in zip(ps, args):
            self.env[p] = v
        for p, v in kw.items():
            if p in ps or p in [a.arg for a in node.args.kwonlyargs]:
                self.env[p] = v
        self.ret = NOTHING
        hot = self.inloop
        self.inloop = self.hot
        self.loops = []
        self.block(node.body)
        out = self.ret
        env = self.env
        self.env, self.ret, self.loops, self.inloop = saved, ret, loops, hot
        for k in saved:
            if k in env and k not in ps and isinstance(env[k], frozenset) and isinstance(saved[k], frozenset):
                self.env[k] = saved[k] | env[k]
        self.depth -= 1
        return out

    def targets(self, e):
        f = e.func
        o = self.o
        if isinstance(f, ast.Name):
            if f.id in self.env:
                return None
            r = o.prog.resolve_global(self.module, f.id)
            if r is None:
                for m in o.prog.modules.values():
                    if f.id in m.funcs:
                        return [(m.funcs[f.id], 0)]
                return None
            if r[0] == 'F':
                return [(o.prog.funcs[r[1]], 0)]
            if r[0] == 'C':
                return [('class', o.prog.classes[r[1]])]
            return None
        if isinstance(f, ast.Attribute):
            r = o.prog.resolve_expr(self.module, f) if not (isinstance(f.value, ast.Name) and f.value.id in self.env) else None
            if r is not None and r[0] == 'F':
                return [(o.prog.funcs[r[1]], 0)]
            if isinstance(f.value, ast.Name) and self.f is not None and self.f.cls is not None and self.f.params[:1] == [f.value.id]:
                g = self.f.cls.find(f.attr)
                if g is not None:
                    return [(g, 0 if g.is_staticmethod else 1)]
            return [(g, 0 if g.is_staticmethod else 1) for g in o.byname.get(f.attr, ()) if not g.is_property]
        return None

    def bind(self, f, e, args, kw, skip, fresh=False):
        ps = f.params[skip:]
        env = {}
        for p, v, a in zip(ps, args, e.args):
            if isinstance(a, ast.Starred):
                break
            env[p] = v
        names = set(f.params) | {a.arg for a in f.node.args.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                env[k] = v
        ident = any(self.names_identifier(a) for a in list(e.args) + [k.value for k in e.keywords])
        if ident or isinstance(e.func, ast.Attribute) and self.names_identifier(e.func.value):
            env = {k: frozenset(w for w in v if not (w[0] == 'R' and 'uuid' in w[1][1])) for k, v in env.items()}
        hot = self.hot
        recv = NOTHING
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value)
        if fresh or kinds(recv, 'X'):
            # the effects stay in the new object, or in the element of the loop
            hot = False
            env = {k: strip_x(v) for k, v in env.items()}
        if not hot:
            env2 = {k: strip_x(v) for k, v in env.items()}
        else:
            env2 = env
        out = self.o.call(f, {k: v for k, v in env2.items() if v}, hot and any(kinds(v, 'X') for v in env.values()))
        return out

    def method(self, e, fn, args, kw, allv, x, r):
        a = fn.attr
        b = self.ev(fn.value)
        a0 = args[0] if args else NOTHING
        if a in LISTMETH or a == 'glob' and not self.o.byname.get('glob'):
            return frozenset([('L', self.origin(e))])
        if kinds(b, 'S'):
            if a in SETMETH:
                return frozenset([('S', self.origin(e))])
            if a == 'pop':
                return as_(kinds(b, 'S'), 'R')
            if a in ('add', 'update', 'discard', 'remove', 'clear', 'difference_update', 'intersection_update',
                     'symmetric_difference_update'):
                return NOTHING
            if a in ('issubset', 'issuperset', 'isdisjoint', '__contains__', '__len__'):
                return NOTHING
            if a == '__iter__':
                return as_(kinds(b, 'S'), 'L')
        if a == 'add':
            if not self.o.byname.get('add'):
                return NOTHING
        if a == 'sort':
            v = self.key_order(e, b)
            if isinstance(fn.value, ast.Name):
                self.env[fn.value.id] = frozenset(k for k in b if k[0] != 'L') | v
            elif isinstance(fn.value, ast.Attribute):
                self.store_attr(fn.value, frozenset(k for k in b if k[0] != 'L') | v)
            return NOTHING
        if a in ('join',) and isinstance(fn.value, (ast.Constant, ast.Name, ast.Attribute)) and not self.dotted(fn):
            return as_(kinds(a0, 'S', 'L', 'R'), 'R') | x
        if a == 'format' and (isinstance(fn.value, ast.Constant) or not self.o.byname.get('format')):
            return as_(kinds(allv, 'S', 'L', 'ES', 'EL', 'R', 'I'), 'R') | x
        if a in ('keys', 'items', 'values') and not e.args and (kinds(b, 'L') or not self.o.byname.get(a)):
            return frozenset(k for k in b if k[0] in ('L', 'ES', 'EL', 'R', 'X'))
        if a == 'popitem':
            return as_(kinds(b, 'L'), 'R')
        if a == 'get' and (kinds(b, 'ES', 'EL') or not self.o.byname.get('get')):
            return as_(kinds(b, 'ES'), 'S') | as_(kinds(b, 'EL'), 'L') | frozenset(kinds(b, 'X', 'R')) | \
                (args[1] if len(args) > 1 else NOTHING) | r | x
        if a == 'setdefault':
            self.grow(fn.value, allv, e, stored=args[1] if len(args) > 1 else NOTHING, keyed=True, key=a0)
            b = self.ev(fn.value)
            return as_(kinds(b, 'ES'), 'S') | (args[1] if len(args) > 1 else NOTHING)
        if a == 'pop' and kinds(b, 'L') and (not e.args or isinstance(e.args[0], (ast.Constant, ast.UnaryOp))):
            return as_(kinds(b, 'L'), 'R')
        if a in GROW and not (self.o.byname.get(a) and a not in ('append', 'extend', 'insert')):
            if a in ('append', 'insert', 'appendleft'):
                v = args[-1] if args else NOTHING
                self.grow(fn.value, frozenset(kinds(v, 'R', 'X')), e)
                if kinds(v, 'S', 'L'):
                    if isinstance(fn.value, ast.Name) and isinstance(self.env.get(fn.value.id), frozenset):
                        self.env[fn.value.id] |= as_(kinds(v, 'S'), 'ES') | as_(kinds(v, 'L'), 'EL')
                return NOTHING
            if a in OUTPUT:
                for k in sorted(kinds(allv, 'R', 'L', 'S') | (kinds(allv, 'X') if self.hot else set()), key=str)[:1]:
                    self.o.find('output', self.where(e), k, 'what is written depends on %s' % k[1][1])
                return NOTHING
            self.grow(fn.value, allv, e)
            return NOTHING
        if a in LOGGING and not self.o.byname.get(a):
            return NOTHING
        fs = self.targets(e)
        if fs:
            return None
        return frozenset(kinds(b, 'R', 'X')) | r | x


def merge(envs):
    out = {}
    for k in {k for e in envs for k in e}:
        vs = [e[k] for e in envs if k in e]
        fz = [v for v in vs if isinstance(v, frozenset)]
        if fz and len(fz) == len(vs):
            out[k] = frozenset().union(*fz)
        else:
            out[k] = next(v for v in vs if not isinstance(v, frozenset))
    return out
