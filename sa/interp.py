"""Flow- and path-sensitive abstract interpretation of the package's functions.

An entry point is interpreted over the abstract values of values.py.  Helpers are interpreted in place, so a rule
sees the same facts wherever a statement has been moved to.  Branches fork the abstract state and remember the
tested value; loops over an unknown collection are interpreted for a generic element; loops over a literal sequence
are unrolled.  Rules observe the events (calls, stores, container changes, yields, raises, comparisons, ...) with the
abstract state in which they happen.  No code of the package is executed and no solver is involved: a branch is only
pruned by constant folding or by the truth of the very same value having been established before.
"""
import ast
import itertools
import os
import builtins
from collections import namedtuple

from .values import *
from .model import Func, ClassInfo, AnalysisError

Event = namedtuple('Event', 'kind args where')

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update',
            'setdefault', 'popitem', '__setitem__', '__delitem__', 'intersection_update', 'difference_update',
            'symmetric_difference_update', 'appendleft', 'popleft', 'move_to_end', 'extendleft'}
STR_OPS = {'lower', 'upper', 'title', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'splitlines', 'replace',
           'startswith', 'endswith', 'encode', 'decode', 'casefold', 'capitalize', 'removeprefix', 'removesuffix',
           'partition', 'rpartition', 'swapcase', 'zfill', 'ljust', 'rjust', 'center', 'isdigit', 'isnumeric', 'isalpha',
           'isalnum', 'isspace', 'islower', 'isupper', 'translate', 'expandtabs', 'isdecimal', 'isidentifier'}
STR_RESULT = {'lower', 'upper', 'title', 'strip', 'lstrip', 'rstrip', 'replace', 'casefold', 'capitalize',
              'removeprefix', 'removesuffix', 'swapcase', 'zfill', 'ljust', 'rjust', 'center', 'translate',
              'expandtabs', 'str', 'fmt', 'join', '%', 'repr', 'decode'}
CONTAINER_READS = {'get', 'items', 'keys', 'values', 'copy', 'index', 'count', 'issubset', 'issuperset', 'union',
                   'difference', 'intersection', 'symmetric_difference', 'isdisjoint'}
CONTAINER_KINDS = {'list', 'dict', 'set', 'tuple', 'deque', 'frozenset'}

EXT_EXC = {
    'AccessError': ['DownloadError', 'SourceError', 'RowGeneratorError', 'Exception'],
    'AppUrlError': ['Exception'],
    'DownloadError': ['SourceError', 'RowGeneratorError', 'Exception'],
    'SourceError': ['RowGeneratorError', 'Exception'],
    'TextEncodingError': ['SourceError', 'RowGeneratorError', 'Exception'],
    'RowGeneratorError': ['Exception'],
    'ConfigurationError': ['RowGeneratorError', 'Exception'],
    'SchemaError': ['RowGeneratorError', 'Exception'],
    'SpecError': ['RowGeneratorError', 'Exception'],
}

# Types of attributes that are part of the documented data model.  Attributes that are not listed get their type from
# what the constructors store in them.
FIELD_TYPES = {
    ('Term', 'parent'): 'Term', ('Term', '_section'): 'SectionTerm', ('Term', 'section'): 'SectionTerm',
    ('Term', 'doc'): 'MetatabDoc', ('Term', '_doc'): 'MetatabDoc', ('Term', 'children'): ('list', 'Term'),
    ('Term', 'args'): ('list', 'str'), ('Term', 'record_term'): 'str', ('Term', 'parent_term'): 'str',
    ('Term', '_term'): 'str', ('Term', 'term_value_name'): 'str', ('Term', 'file_name'): 'str',
    ('SectionTerm', 'terms'): ('list', 'Term'), ('SectionTerm', 'header_args'): ('list', 'str'),
    ('SectionTerm', 'default_term_value_name'): 'str',
    ('MetatabDoc', 'terms'): ('list', 'Term'), ('MetatabDoc', 'sections'): ('dict', 'SectionTerm'),
    ('MetatabDoc', 'root'): 'RootSectionTerm', ('MetatabDoc', 'resolver'): 'WebResolver',
    ('MetatabDoc', 'decl_terms'): ('dict', ('dict', 'str')), ('MetatabDoc', 'decl_sections'): ('dict', 'dict'),
    ('MetatabDoc', 'super_terms'): ('dict', 'str'), ('MetatabDoc', 'derived_terms'): ('dict', ('set', 'str')),
    ('MetatabDoc', '_term_parser'): 'TermParser', ('MetatabDoc', 'decls'): 'list',
    ('TermParser', '_doc'): 'MetatabDoc', ('TermParser', 'root'): 'RootSectionTerm',
    ('TermParser', 'resolver'): 'WebResolver', ('TermParser', '_declared_terms'): ('dict', ('dict', 'str')),
    ('TermParser', '_declared_sections'): ('dict', 'dict'), ('TermParser', 'errors'): ('set', 'IncludeError'),
    ('TermParser', '_param_map'): ('list', 'str'),
    ('YamlMetatabSource', 'sections'): ('dict', 'SectionTerm'), ('YamlMetatabSource', 'section_map'): ('dict', 'str'),
}

# Parameters of public operations
PARAM_TYPES = {
    'Term.__init__': {'parent': 'Term', 'doc': 'MetatabDoc', 'section': 'SectionTerm', 'term': 'str'},
    'SectionTerm.__init__': {'doc': 'MetatabDoc', 'term': 'str', 'value': 'str'},
    'RootSectionTerm.__init__': {'doc': 'MetatabDoc'},
    'Term.section.setter': {'v': 'SectionTerm'},
    'Term.add_child': {'child': 'Term'}, 'Term.remove_child': {'child': 'Term'},
    'SectionTerm.add_term': {'t': 'Term'}, 'SectionTerm.move_term': {'t': 'Term'},
    'SectionTerm.remove_term': {'term': 'Term'}, 'SectionTerm.set_terms': {'terms': ('list', 'Term')},
    'SectionTerm.subclass': {'t': 'Term'}, 'SectionTerm._args': {'d': 'dict', 'term': 'str'},
    'MetatabDoc.add_term': {'t': 'Term'}, 'MetatabDoc.remove_term': {'t': 'Term'},
    'MetatabDoc.add_section': {'s': 'SectionTerm'}, 'MetatabDoc.load_terms': {'terms': 'TermParser'},
    'MetatabDoc.__init__': {'resolver': 'WebResolver'}, 'MetatabDoc.load_declarations': {'decls': 'list'},
    'MetatabDoc.get_or_new_section': {'params': 'list'}, 'MetatabDoc.new_section': {'params': 'list'},
    'TermParser.__init__': {'doc': 'MetatabDoc', 'resolver': 'WebResolver'},
    'TermParser.generate_terms': {'root': 'RootSectionTerm'},
    'TermParser.substitute_synonym': {'nt': 'Term'}, 'TermParser.manage_declare_terms': {'t': 'Term'},
    'TermParser.add_declared_section': {'t': 'Term'}, 'TermParser.add_declared_term': {'t': 'Term'},
    'TermParser.add_value_set_value': {'t': 'Term'}, 'TermParser.inherited_children': {'t': 'dict'},
    'YamlMetatabSource.yield_dict': {'doc': 'MetatabDoc', 'd': 'dict'},
    'convert_to_datapackage': {'doc': 'MetatabDoc'}, 'get_table': {'doc': 'MetatabDoc'},
    'Term._convert_to_dict': {'term': 'Term'},
}
NAME_PARAMS = {'term', 'name', 'section_name', 'term_name', 'item', 'arg', 'value', 'section', 'path'}
PARAM_TYPE_BY_NAME = {'doc': 'MetatabDoc'}

LOOKUPS = {
    'MetatabDoc.find': ('list', 'Term'), 'MetatabDoc.find_first': 'Term', 'MetatabDoc.find_first_value': 'str',
    'MetatabDoc.get': 'Term', 'MetatabDoc.get_value': 'str', 'Term.find_first': 'Term', 'Term.find': ('list', 'Term'),
    'Term.find_first_value': 'str', 'Term.get': 'Term', 'Term.get_value': 'str', 'Term.__getitem__': 'Term',
    'MetatabDoc.get_term_class': ('class', 'Term'), 'TermParser.get_term_class': ('class', 'Term'),
}

EXT_RET = {
    'open': 'file', 'io.open': 'file', 'codecs.open': 'file', 'pathlib.Path': 'path', 'io.StringIO': 'stringio',
    'str': 'str', 'repr': 'str', 'int': 'int', 'len': 'int', 'float': 'float', 'os.path.join': 'str',
    'os.path.dirname': 'str', 'os.path.basename': 'str', 're.sub': 'str', 're.split': ('list', 'str'),
    'uuid.uuid4': 'uuid', 'os.listdir': ('list', 'str'), 'json.dumps': 'str', 'yaml.safe_load': 'dict',
    're.findall': ('list', 'str'),
}


class Elements(list):
    """The elements of a generator that goes over a list, and the list."""
    src = None


class State:
    __slots__ = ('env', 'heap', 'conds', 'types', 'events', 'clos', 'ver')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.conds = {}
        self.types = {}
        self.events = ()
        self.clos = {}
        self.ver = 0

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.conds = dict(self.conds)
        s.types = dict(self.types)
        s.events = self.events
        s.clos = dict(self.clos)
        s.ver = self.ver
        return s


def merge_envs(envs):
    out = {}
    keys = set()
    for e in envs:
        keys.update(e)
    for k in keys:
        vals = [e.get(k, UNBOUND) for e in envs]
        out[k] = vals[0] if all(v == vals[0] for v in vals) else phi(vals)
    return out


class Interp:
    passes = 1      # of a loop body; the second one starts with what the first may have left behind

    def __init__(self, prog, atoms=None, cap=256, loop_passes=None, comp_paths=False, observers=(), max_depth=14,
                 havoc=None, max_rec=1, atom_filter=None, field_types=None, merge_calls=True, implicit=True,
                 const_unroll=8, opaque=(), ext_hook=None, attr_hook=None):
        self.prog = prog
        self.atoms = dict(LOOKUPS if atoms is None else atoms)
        self.trust_asserts = False
        self.cap = cap
        self.loop_passes = loop_passes or Interp.passes
        self.comp_paths = comp_paths
        self.precise = False            # failing lookups in dicts with known keys raise
        self.plain = None               # values that are not containers, in precise mode
        self.gen_ids = []
        self.seqs = False               # lists with known elements stay known under edits and sorting
        self.exact_comp = False         # generator expressions over a known tuple give a known sequence
        self.observers = list(observers)
        self._loop_returns = {}
        self.max_depth = max_depth
        self.max_rec = max_rec
        self.havoc = havoc
        self.iter_hook = None    # elements of a value, for rules that follow a given sequence
        self.unroll = ()         # iterations of the loops over a given sequence
        self.keep = set()        # attributes that a loop does not change
        self.atom_filter = atom_filter
        self.merge_calls = merge_calls
        self.implicit = implicit
        self.const_unroll = const_unroll
        self.opaque = set(opaque)
        self.ext_hook = ext_hook
        self.attr_hook = attr_hook
        self.try_calls = []      # names called inside the try statements around the current statement
        self.iter_use = []       # what the current iteration feeds
        self.assert_new = set()  # objects created while evaluating an assertion
        self.stack = []          # (Func, where of the call)
        self.exc = []            # sinks of raise outcomes
        self.gens = []           # sinks of yields
        self.tries = []          # handler type names around the current statement
        self.loop_depth = 0
        self.assert_depth = 0
        self.capped = 0
        self.steps = 0
        self.field_types = dict(FIELD_TYPES)
        if field_types:
            for k, v in field_types.items():
                self.field_types.setdefault(k, v)
        self.clo_funcs = {}
        self.analysed = set()
        self.n_paths = 0
        self.n_events = 0
        self.n_calls = 0
        self._fieldcache = {}
        self._globcache = {}

    # ------------------------------------------------------------------ infrastructure

    def where(self, node):
        f = self.stack[-1][0] if self.stack else None
        return (f.module.path if f else '?', f.qual if f else '?', getattr(node, 'lineno', 0))

    def chain(self):
        return ' > '.join(f.qual for f, _ in self.stack)

    soft = False     # a missing object is tolerated where the attribute is taken

    def emit(self, st, kind, node, *args):
        if self.soft and kind == 'DEREF':
            return None
        self.n_events += 1
        ev = Event(kind, args, self.where(node))
        if self.try_calls and kind in ('CALL', 'XCALL', 'ITERATE'):
            item = args[0] if kind != 'ITERATE' else 'iterate:' + str(args[0][1] if args[0][0] in ('x', 'n') else '')
            for fr in self.try_calls:
                fr.add(item)
        tracked = False
        for o in self.observers:
            if o(ev, st, self):
                tracked = True
        if tracked:
            st.events = st.events + (ev,)
        return ev

    def site(self, node, extra=''):
        f = self.stack[-1][0] if self.stack else None
        chain = tuple((fr.qual, w[2]) for fr, w in self.stack[1:]) if len(self.stack) > 1 else ()
        return (f.qual if f else '?', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), extra, chain) + self.unroll

    def new(self, kind, node, extra=''):
        n = ('n', kind, self.site(node, extra))
        if self.assert_depth:
            self.assert_new.add(n)
        return n

    def merge(self, states):
        if len(states) == 1:
            return states[0]
        out = State()
        out.env = merge_envs([s.env for s in states])
        keys = {}
        for s in states:
            keys.update(dict.fromkeys(s.heap))
        for k in keys:
            vals = []
            for s in states:
                if k in s.heap:
                    vals.append(s.heap[k])
                else:
                    vals.append(self.initial(k))
            if all(v == vals[0] for v in vals):
                if vals[0] is not None:
                    out.heap[k] = vals[0]
            elif isinstance(k[1], str) and k[1].startswith('#'):
                continue        # exact sequences etc. are not kept over a merge
            else:
                vals = [v for v in vals if v is not None]
                if vals:
                    out.heap[k] = phi(vals)
        first = states[0].conds
        out.conds = {k: v for k, v in first.items() if all(s.conds.get(k) == v for s in states[1:])}
        ft = states[0].types
        out.types = {k: v for k, v in ft.items() if all(s.types.get(k) == v for s in states[1:])}
        out.events = states[0].events
        for s in states:
            for k, v in s.clos.items():
                out.clos[k] = merge_envs([out.clos[k], v]) if k in out.clos and out.clos[k] is not v else v
        out.ver = max(s.ver for s in states)
        return out

    def initial(self, k):
        """Content of a heap cell that has not been written."""
        base, cell = k[0], k[1]
        if isinstance(cell, str) and not cell.startswith(('[', '{', '#')):
            if base[0] == 'n':
                return None
            return ('a', base, cell)
        if cell == '[k]':
            return ('i', base, k[2]) if base[0] != 'n' else None
        if cell == '[]' and base[0] != 'n':
            return ('e', base)
        return None

    def group(self, states):
        """Merge the states that have seen the same tracked events."""
        groups = {}
        for s in states:
            groups.setdefault(s.events, []).append(s)
        return [self.merge(g) for g in groups.values()]

    def limit(self, states):
        states = self.dedupe(states)
        if len(states) > self.cap:
            self.capped += 1
            states = self.group(states)
            if len(states) > self.cap * 4:
                m = self.merge(states)
                states = [m]
        return states

    @staticmethod
    def dedupe(states):
        if len(states) < 2:
            return states
        out, seen = [], set()
        for s in states:
            try:
                k = (s.events, tuple(sorted((str(a), str(b)) for a, b in s.env.items())),
                     frozenset(s.conds.items()), frozenset(s.heap.items()))
            except TypeError:
                out.append(s)
                continue
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    # ------------------------------------------------------------------ types

    def typeof(self, st, v):
        t = v[0]
        if st is not None:
            ty = st.types.get(v)
            if ty is not None:
                return ty
        if t == 'c':
            return v[1] if v[1] != 'NoneType' else 'None'
        if t == 'n':
            return v[1]
        if t == 't':
            return 'tuple'
        if t == 'a':
            bt = self.typeof(st, v[1])
            if isinstance(bt, str):
                if bt in self.prog.classes:
                    ft = self.field_type(bt, v[2])
                    if ft is not None:
                        return ft
                if bt == 'class':
                    return None
            if v[1][0] == 'C':
                r = self.prog.classes[v[1][1]].find_attr(v[2])
                if r:
                    return self.literal_type(r[1])
            return None
        if t == 'e':
            bt = self.typeof(st, v[1])
            if isinstance(bt, tuple) and bt[0] in ('list', 'set', 'tuple'):
                return bt[1]
            return None
        if t == 'i':
            bt = self.typeof(st, v[1])
            if isinstance(bt, tuple) and bt[0] in ('dict', 'list'):
                return bt[1]
            return None
        if t == 'x':
            if v[1] in self.atoms:
                return self.atoms[v[1]]
            if v[1].startswith('rec:'):
                q = v[1][4:]
                if q in LOOKUPS:
                    return LOOKUPS[q]
                return None
            if v[1] in EXT_RET:
                return EXT_RET[v[1]]
            if v[1] == 'class':
                return None
            return None
        if t == 'o':
            if v[1] in STR_RESULT:
                return 'str'
            if v[1] == 'encode':
                return 'bytes'
            if v[1] in ('split', 'rsplit', 'splitlines'):
                return ('list', 'str')
            if v[1] in ('==', 'in', 'isnone', 'not', 'isinstance', '<', '<=', 'is', 'startswith', 'endswith'):
                return 'bool'
            if v[1] == 'slice':
                return self.typeof(st, v[2])
            if v[1] == '+':
                a, b = self.typeof(st, v[2]), self.typeof(st, v[3])
                if a == 'str' or b == 'str':
                    return 'str'
                return a or b
            if v[1] == 'idx':
                return 'int'
            return None
        if t == 'phi':
            ts = {self.typeof(st, m) for m in v[1] if m != NONE and m != UNBOUND}
            if len(ts) == 1:
                return ts.pop()
            return None
        if t == 'C':
            return 'class'
        if t in ('F', 'b', 'L', 'm'):
            return 'function'
        if t == 'p':
            return None
        if t == 'G':
            return self.global_type(v)
        return None

    def field_type(self, cname, attr):
        key = (cname, attr)
        if key in self._fieldcache:
            return self._fieldcache[key]
        ft = None
        for c in self.prog.classes[cname].mro():
            n = c.name if isinstance(c, ClassInfo) else c
            if (n, attr) in self.field_types:
                ft = self.field_types[(n, attr)]
                break
        if ft is None:
            r = self.prog.classes[cname].find_attr(attr)
            if r:
                ft = self.literal_type(r[1])
        self._fieldcache[key] = ft
        return ft

    @staticmethod
    def literal_type(e):
        if isinstance(e, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(e, (ast.Set, ast.SetComp)):
            return 'set'
        if isinstance(e, ast.Constant):
            return type(e.value).__name__ if e.value is not None else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in (
                'list', 'dict', 'set', 'OrderedDict', 'defaultdict', 'deque'):
            return {'OrderedDict': 'dict', 'defaultdict': 'dict'}.get(e.func.id, e.func.id)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'split':
            return 'list'
        return None

    def global_type(self, v):
        m = self.prog.modules.get(v[1])
        if m and '#' not in v[2]:
            for e in m.assigns.get(v[2], []):
                if e is not None:
                    return self.literal_type(e)
        elif '#' in v[2]:
            f = self.prog.funcs.get(v[1] + ':' + v[2].split('#')[0])
            if f is not None:
                d = self.default_expr(f, v[2].split('#')[1])
                if d is not None:
                    return self.literal_type(d)
        return None

    def cls(self, st, v):
        """ClassInfo of an instance value, if it is an instance of a package class."""
        t = self.typeof(st, v)
        if isinstance(t, str):
            return self.prog.classes.get(t)
        return None

    def root(self, st, v, seen=()):
        """Where the object v lives: 'fresh', 'param:<name>', 'global', 'external', 'const'."""
        t = v[0]
        if t == 'n':
            return 'fresh'
        if t in ('a', 'e', 'k', 'i', 'm'):
            b = v[1]
            if t == 'a' and b[0] == 'C':
                return 'global'
            return self.root(st, b)
        if t == 'p':
            return 'param:' + v[1]
        if t == 'lv':
            return 'unknown'
        if t in ('G', 'C', 'M', 'F'):
            return 'global'
        if t == 'x':
            q = v[1][4:] if v[1].startswith('rec:') else v[1]
            if q in LOOKUPS and v[2]:
                lt = LOOKUPS[q]
                if isinstance(lt, tuple) and lt[0] == 'list':
                    return 'fresh-of:' + self.root(st, v[2][0])
                return self.root(st, v[2][0])
            return 'external'
        if t == 'c':
            return 'const'
        if t == 'phi':
            rs = {self.root(st, m) for m in v[1]}
            for r in sorted(rs):
                if r.startswith('param') or r == 'global':
                    return r
            return sorted(rs)[0]
        if t == 'b':
            return self.root(st, v[2])
        return 'fresh'

    def owner_root(self, st, v):
        """Like root, but an element of a fresh list returned by a lookup belongs to the document."""
        r = self.root(st, v)
        if r.startswith('fresh-of:'):
            if v[0] in ('a', 'e', 'k', 'i', 'm'):
                return r[len('fresh-of:'):]
            return 'fresh'
        return r

    # ------------------------------------------------------------------ truth and assumptions

    def truth(self, st, v):
        t = v[0]
        if t == 'c':
            return bool(v[2])
        if v in st.conds:
            return st.conds[v]
        if t == 'n':
            c = self.prog.classes.get(v[1])
            if c is not None and not (c.find('__len__') or c.find('__bool__')):
                return True
            if v[1] in ('list', 'tuple', 'dict', 'set'):
                seq = st.heap.get((v, '#seq'))
                if seq is not None:
                    return len(seq) > 1
                if st.heap.get((v, '#empty')):
                    return False
                return None
            if v[1] in ('gen', 'function', 'copy'):
                return True
            return None
        if t == 't':
            return len(v) > 1
        if t in ('C', 'F', 'b', 'L', 'M', 'g', 'm'):
            return True
        if t == 'x' and v[1] in ('any', 'all') and len(v) == 3 and len(v[2]) > 1:
            rs = [self.truth(st, a) for a in v[2]]
            if v[1] == 'any':
                return True if any(r is True for r in rs) else False if all(r is False for r in rs) else None
            return False if any(r is False for r in rs) else True if all(r is True for r in rs) else None
        if t == 'o':
            o = v[1]
            if o == 'not':
                r = self.truth(st, v[2])
                return None if r is None else (not r)
            if o == '==':
                a, b = v[2], v[3]
                if a == b:
                    return True
                if is_const(a) and is_const(b):
                    return cval(a) == cval(b)
                if a[0] == 't' and b[0] == 't' and not any(m[0] == '*' for m in a[1:] + b[1:]):
                    if len(a) != len(b):
                        return False
                    rs = [self.truth(st, self.eq(p, q)) for p, q in zip(a[1:], b[1:])]
                    if any(r is False for r in rs):
                        return False
                    if all(r is True for r in rs):
                        return True
                # a known to equal another constant, or known falsy/truthy against a constant
                for p, q in ((a, b), (b, a)):
                    if is_const(q):
                        for k, val in st.conds.items():
                            if val and k[0] == 'o' and k[1] == '==' and len(k) == 4:
                                if k[2] == p and is_const(k[3]) and cval(k[3]) != cval(q):
                                    return False
                                if k[3] == p and is_const(k[2]) and cval(k[2]) != cval(q):
                                    return False
                        pt = self.truth(st, p)
                        if pt is not None and pt != bool(cval(q)):
                            return False
                return None
            if o == 'isnone':
                a = v[2]
                if a == NONE:
                    return True
                if is_const(a) or a[0] in ('n', 't', 'C', 'F', 'b', 'L', 'M'):
                    return False
                if a[0] == 'o' and (a[1] in STR_RESULT or a[1] in ('encode', 'split', '+', 'slice')):
                    return False
                if self.truth(st, a) is True:
                    return False
                for k, val in st.conds.items():
                    if val and k[0] == 'o' and k[1] == '==' and k[2] == a and is_const(k[3]):
                        return cval(k[3]) is None
                return None
            if o == 'in':
                a, b = v[2], v[3]
                if is_const(a) and b[0] == 't' and all(is_const(m) for m in b[1:]):
                    return any(cval(m) == cval(a) for m in b[1:])
                if is_const(a) and is_const(b) and isinstance(cval(b), str) and isinstance(cval(a), str):
                    return cval(a) in cval(b)
                if is_const(a) and b[0] == 'a' and b[1][0] == 'C':
                    r = self.prog.classes[b[1][1]].find_attr(b[2])
                    if r is not None:
                        lit = self.literal_consts(r[0].module, r[1])
                        if lit is not None:
                            return cval(a) in lit
                if is_const(a) and b[0] == 'G' and '#' not in b[2]:
                    es = self.prog.modules[b[1]].assigns.get(b[2], [])
                    if len(es) == 1 and es[0] is not None:
                        lit = self.literal_consts(self.prog.modules[b[1]], es[0])
                        if lit is not None:
                            return cval(a) in lit
                if b[0] == 't' and len(b) == 1:
                    return False
                if b[0] == 't' and a in b[1:]:
                    return True
                if b[0] == 't':
                    rs = [self.truth(st, self.eq(a, m)) for m in b[1:]]
                    if any(r is True for r in rs):
                        return True
                    if all(r is False for r in rs):
                        return False
                if self.precise and is_const(a) and self.tracked(st, b):
                    return (b, '[k]', a) in st.heap
                if b[0] == 'n' and b[1] == 'dict' and is_const(a):
                    ks = st.heap.get((b, '{k}'))
                    if ks is not None and all(is_const(m) for m in members(ks)) and a not in members(ks):
                        return False
                if b[0] == 'n' and b[1] in ('list', 'tuple', 'set'):
                    seq = st.heap.get((b, '#seq'))
                    if seq is not None:
                        if a in seq[1:]:
                            return True
                        if is_const(a) and all(is_const(m) for m in seq[1:]):
                            return any(cval(m) == cval(a) for m in seq[1:])
                return None
            if o == 'is':
                a, b = v[2], v[3]
                if a == b:
                    return True
                if is_const(a) and is_const(b):
                    return type(cval(a)) is type(cval(b)) and cval(a) == cval(b)
                for p, q in ((a, b), (b, a)):
                    if is_const(q):
                        if p[0] in ('n', 't', 'C', 'F'):
                            return False
                        pt = self.truth(st, p)
                        if pt is not None and pt != bool(cval(q)):
                            return False
                if a[0] == 'n' and b[0] == 'n' and a != b:
                    return False
                return None
            if o == 'isinstance':
                return self.isinstance(st, v[2], v[3])
            if o == '<' or o == '<=':
                a, b = v[2], v[3]
                if is_const(a) and is_const(b):
                    try:
                        return cval(a) < cval(b) if o == '<' else cval(a) <= cval(b)
                    except TypeError:
                        return None
                return None
            if o in ('fmt', 'join', '+'):
                for m in v[2:]:
                    if isinstance(m, tuple) and is_const(m) and isinstance(cval(m), str) and cval(m):
                        if o == '+':
                            return True
                        if o == 'fmt' and m is v[2] and cval(m).replace('{}', ''):
                            return True
                return None
            if o in ('lower', 'upper', 'title', 'casefold', 'capitalize', 'str') and o != 'str':
                return self.truth(st, v[2])
        return None

    def literal_consts(self, m, e):
        """The constants of a literal collection (or 'a b c'.split()), or None."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset', 'list',
                                                                                     'tuple') and len(e.args) == 1:
            return self.literal_consts(m, e.args[0])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'split' and not e.args \
                and isinstance(e.func.value, ast.Constant):
            return e.func.value.value.split()
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for n in e.elts:
                v = self.const_expr(m, n)
                if v is None or not is_const(v):
                    return None
                out.append(cval(v))
            return out
        if isinstance(e, ast.Dict):
            out = []
            for n in e.keys:
                v = self.const_expr(m, n) if n is not None else None
                if v is None or not is_const(v):
                    return None
                out.append(cval(v))
            return out
        return None

    @staticmethod
    def eq(a, b):
        if is_const(a) and not is_const(b):
            a, b = b, a
        elif not is_const(b) and repr(b) < repr(a):
            a, b = b, a
        return op('==', a, b)

    def isinstance(self, st, v, tv):
        names = []
        for m in (tv[1:] if tv[0] == 't' else [tv]):
            if m[0] == 'C':
                names.append(m[1])
            elif m[0] == 'g':
                names.append(m[1].split('.')[-1])
            elif m[0] == 'x' and m[1] == 'type':
                names.append('?')
            else:
                names.append('?')
        if self.precise and self.plain is not None and self.plain(v) and all(n in ('list', 'tuple', 'set') for n in names):
            return False
        t = self.typeof(st, v)
        if isinstance(t, tuple):
            t = t[0]
        if t is None:
            return None
        if '?' in names:
            return None
        c = self.prog.classes.get(t)
        pyname = {'list': 'list', 'dict': 'dict', 'str': 'str', 'tuple': 'tuple', 'set': 'set', 'int': 'int',
                  'bool': 'bool', 'bytes': 'bytes', 'float': 'float', 'gen': 'generator'}
        res = False
        unknown = False
        for n in names:
            if c is not None:
                if c.is_sub(n):
                    return True
                # the static type may be a superclass of the dynamic one
                o = self.prog.classes.get(n)
                if o is not None and o.is_sub(c.name) and v[0] != 'n':
                    unknown = True
                if o is None and n not in pyname:
                    if c.external_bases() and any(b != 'object' for b in c.external_bases()):
                        unknown = True
                    if n in ('Iterable', 'Mapping', 'Sequence'):
                        return c.find('__iter__') is not None if n == 'Iterable' else None
            elif t in pyname:
                if n == t or (t == 'bool' and n == 'int'):
                    return True
                if n == 'Iterable' and t in ('list', 'dict', 'str', 'tuple', 'set', 'gen', 'bytes'):
                    return True
                if n in ('Sequence',) and t in ('list', 'str', 'tuple'):
                    return True
                if n in ('MutableSequence',) and t == 'list':
                    return True
                if n in ('Mapping', 'MutableMapping', 'OrderedDict') and t == 'dict':
                    return True if n != 'OrderedDict' else None
                if n in ('basestring', 'unicode'):
                    return t == 'str'
                if n == 'object':
                    return True
            elif t == 'None':
                if n == 'NoneType':
                    return True
            else:
                unknown = True
        return None if unknown else res

    def assume(self, st, v, b):
        """State in which the truth of v is b, or None if that contradicts what is known."""
        while v[0] == 'o' and v[1] == 'not':
            v, b = v[2], not b
        known = self.truth(st, v)
        if known is not None:
            return st if known == b else None
        st = st.copy()
        st.conds[v] = b
        if v[0] == 'o' and v[1] == '==' and is_const(v[3]) and b:
            tv = bool(cval(v[3]))
            if st.conds.get(v[2]) is None:
                st.conds[v[2]] = tv
            elif st.conds[v[2]] != tv:
                return None
        if v[0] == 'o' and v[1] == 'isnone':
            if b:
                if st.conds.get(v[2]) is True:
                    return None
                st.conds[v[2]] = False
        if v[0] == 'o' and v[1] == 'isinstance' and b:
            tv = v[3]
            if tv[0] == 'C':
                cur = self.typeof(st, v[2])
                if not (isinstance(cur, str) and cur in self.prog.classes and
                        self.prog.classes[cur].is_sub(tv[1])):
                    st.types[v[2]] = tv[1]
            elif tv[0] == 'g' and tv[1] in ('str', 'list', 'dict', 'int', 'set', 'tuple', 'bytes', 'float'):
                if self.typeof(st, v[2]) is None:
                    st.types[v[2]] = tv[1]
        if b and v[0] != 'o':
            nn = op('isnone', v)
            if st.conds.get(nn) is True:
                return None
        return st

    # ------------------------------------------------------------------ conditions

    def eval_cond(self, st, e):
        """[(state, bool)]"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            live = [st]
            out = []
            for i, v in enumerate(e.values):
                nxt = []
                for s in live:
                    for s2, b in self.eval_cond(s, v):
                        if b == is_and and i < len(e.values) - 1:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                live = nxt
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.eval_cond(st, e.operand)]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            parts = []
            left = e.left
            for o, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [o], [r]), e))
                left = r
            return self.eval_cond(st, ast.copy_location(ast.BoolOp(ast.And(), parts), e))
        if isinstance(e, ast.IfExp):
            out = []
            for s, b in self.eval_cond(st, e.test):
                out += self.eval_cond(s, e.body if b else e.orelse)
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1 \
                and not e.keywords and 'bool' not in st.env:
            return self.eval_cond(st, e.args[0])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('all', 'any') \
                and len(e.args) == 1 and isinstance(e.args[0], (ast.List, ast.Tuple)) and e.func.id not in st.env:
            elts = e.args[0].elts
            if elts and not any(isinstance(x_, ast.Starred) for x_ in elts):
                return self.eval_cond(st, ast.copy_location(
                    ast.BoolOp(ast.And() if e.func.id == 'all' else ast.Or(), list(elts)), e))
        out = []
        for s, v in self.eval(st, e):
            out += self.branch(s, v, e)
        return out

    def branch(self, s, v, e=None):
        if v[0] == 'phi':
            out = []
            name = e.id if isinstance(e, ast.Name) else None
            if isinstance(e, ast.NamedExpr):
                name = e.target.id
            for m in members(v):
                s2 = s.copy()
                if name:
                    s2.env[name] = m
                if self.seqs:
                    s2.heap[(('u', 'path'), 'guess')] = TRUE
                out += self.branch(s2, m, None)
            return out
        if v[0] == 'o' and v[1] in ('isnone', '==', 'is', 'in', 'isinstance') and v[2][0] == 'phi' \
                and isinstance(e, ast.Compare) and isinstance(e.left, ast.Name) and v[1] != 'in':
            out = []
            for m in members(v[2]):
                s2 = s.copy()
                s2.env[e.left.id] = m
                if v[1] == 'isnone':
                    nv = op('isnone', m)
                elif v[1] == '==':
                    nv = self.eq(m, v[3])
                else:
                    nv = op(v[1], m, *v[3:])
                neg = isinstance(e.ops[0], (ast.IsNot, ast.NotEq))
                for s3, b in self.branch(s2, nv, None):
                    out.append((s3, b))
            return out
        if v[0] == 'o' and v[1] == 'not':
            return [(s2, not b) for s2, b in self.branch(s, v[2], None)]
        if v[0] == 'o' and v[1] in ('and', 'or'):
            out = []
            isand = v[1] == 'and'
            for s2, b in self.branch(s, v[2], None):
                if b == isand:
                    out += self.branch(s2, v[3], None)
                else:
                    out.append((s2, b))
            return out
        out = []
        for b in (True, False):
            s2 = self.assume(s, v, b)
            if s2 is not None:
                if s2 is s:
                    s2 = s.copy()
                    if v[0] != 'c':
                        s2.conds[v] = b
                    # decided
                    self.emit(s2, 'COND', e or _NOWHERE, v, b)
                    return [(s2, b)]
                self.emit(s2, 'COND', e or _NOWHERE, v, b)
                out.append((s2, b))
        if self.seqs and len(out) > 1:
            for s2, _ in out:
                s2.heap[(('u', 'path'), 'guess')] = TRUE
        return out

    # ------------------------------------------------------------------ expressions

    def eval_many(self, st, nodes):
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                for s2, v in self.eval(s, n):
                    nxt.append((s2, vs + [v]))
            res = nxt
            if len(res) > self.cap * 2:
                self.capped += 1
                res = res[:self.cap * 2]
        return res

    def eval(self, st, e):
        self.steps += 1
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            out = [(st, [])]
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    out = [(s2, vs + [v]) for s, vs in out for s2, v in self.eval(s, ch)]
            return [(s, ('u', type(e).__name__)) for s, vs in out]
        return m(st, e)

    def ev_Constant(self, st, e):
        return [(st, C(e.value))]

    def ev_Name(self, st, e):
        if e.id in st.env:
            v = st.env[e.id]
            if v == UNBOUND or (v[0] == 'phi' and UNBOUND in v[1]):
                self.emit(st, 'UNBOUND', e, e.id)
                if v[0] == 'phi':
                    v = phi([m for m in v[1] if m != UNBOUND])
                else:
                    v = TOP
            return [(st, v)]
        return [(st, self.global_value(e.id, e, st))]

    def global_value(self, name, node=None, st=None, module=None):
        f = self.stack[-1][0] if self.stack else None
        m = module or (f.module if f else None)
        # enclosing function scopes that are not active
        r = self.prog.resolve_global(m, name)
        if r is None:
            if st is not None and node is not None:
                self.emit(st, 'UNDEFINED', node, name)
            return ('u', 'undef', name)
        return self.global_ref(r)

    def global_ref(self, r):
        if r[0] == 'G':
            if r in self._globcache:
                return self._globcache[r]
            m = self.prog.modules[r[1]]
            es = m.assigns.get(r[2], [])
            v = r
            self._globcache[r] = v
            if len(es) == 1 and es[0] is not None:
                e = es[0]
                v2 = self.const_expr(m, e)
                if v2 is not None:
                    v = v2
                elif isinstance(e, ast.Call):
                    fr = self.prog.resolve_expr(m, e.func)
                    if fr and fr[0] == 'g':
                        v = x(fr[1], *[self.const_expr(m, a) or TOP for a in e.args])
                        if fr[1].split('.')[-1] in ('list', 'dict', 'set', 'OrderedDict', 'defaultdict', 'deque',
                                                    'WeakKeyDictionary', 'WeakValueDictionary', 'Counter'):
                            v = r
            self._globcache[r] = v
            return v
        return r

    def const_expr(self, m, e):
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, ast.Tuple):
            vs = [self.const_expr(m, a) for a in e.elts]
            if all(v is not None for v in vs):
                return ('t',) + tuple(vs)
            return None
        if isinstance(e, ast.Name):
            r = self.prog.resolve_global(m, e.id)
            if r and r[0] == 'G':
                v = self.global_ref(r)
                return v if v[0] in ('c', 't') else None
            return r
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.const_expr(m, e.left), self.const_expr(m, e.right)
            if a and b and is_const(a) and is_const(b):
                try:
                    return C(cval(a) + cval(b))
                except TypeError:
                    return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            a = self.const_expr(m, e.operand)
            if a and is_const(a):
                return C(-cval(a))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'frozenset' and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.Set, ast.List, ast.Tuple)):
            vs = [self.const_expr(m, a) for a in e.args[0].elts]
            if all(v is not None for v in vs):
                return ('t',) + tuple(vs)
        return None

    def ev_Attribute(self, st, e):
        out = []
        for s, b in self.eval(st, e.value):
            out += self.load_attr(s, b, e.attr, e)
        return out

    def load_attr(self, st, b, attr, node):
        if b[0] == 'phi':
            out = []
            ms = [m for m in members(b)]
            self.emit(st, 'DEREF', node, b, attr)
            vals = []
            for m in ms:
                if m == NONE:
                    continue
                rs = self.load_attr(st, m, attr, node)
                if len(rs) == 1 and rs[0][0] is st:
                    vals.append(rs[0][1])
                else:
                    out += rs
            if vals:
                out.append((st, phi(vals)))
            if not out:
                out = [(st, TOP)]
            return out
        t = b[0]
        if t == 'M':
            mod = self.prog.modules[b[1]]
            r = self.prog.resolve_global(mod, attr)
            if r is None:
                if b[1] + '.' + attr in self.prog.modules:
                    return [(st, ('M', b[1] + '.' + attr))]
                if attr in ('__file__', '__name__', '__path__'):
                    return [(st, x('modattr', C(b[1] + '.' + attr)))]
                self.emit(st, 'UNDEFINED', node, b[1] + '.' + attr)
                return [(st, TOP)]
            return [(st, self.global_ref(r))]
        if t == 'g':
            return [(st, ('g', b[1] + '.' + attr))]
        if t == 'super':
            _, cname, selfv = b
            c = self.cls(st, selfv) or self.prog.classes.get(cname)
            if selfv[0] == 'C':
                c = self.prog.classes[selfv[1]]
            mro = c.mro()
            names = [k.name if isinstance(k, ClassInfo) else k for k in mro]
            i = names.index(cname) + 1 if cname in names else 1
            for k in mro[i:]:
                if isinstance(k, ClassInfo) and attr in k.methods:
                    f = k.methods[attr]
                    if f.is_property:
                        return self.call_func(st, f, selfv, [], {}, None, None, node)
                    return [(st, ('b', self.fkey(f), selfv))]
            return [(st, ('m', ('x', 'super', (selfv,)), attr))]
        if t == 'x' and b[1] == 'type' and self.cls(st, b[2][0]) is not None:
            b = ('C', self.cls(st, b[2][0]).name)
            t = 'C'
        if t == 'x' and b[1] == 'property':
            c = self.prog.classes[cval(b[2][0])]
            if attr == 'fset':
                f = c.find_setter(cval(b[2][1]))
                return [(st, ('F', self.fkey(f)) if f is not None else NONE)]
            if attr == 'fget':
                return [(st, ('F', self.fkey(c.find(cval(b[2][1])))))]
        if t == 'C':
            c = self.prog.classes[b[1]]
            f = c.find(attr)
            if f is not None:
                if f.is_property:
                    return [(st, x('property', C(c.name), C(attr)))]
                if f.is_classmethod:
                    return [(st, ('b', self.fkey(f), b))]
                return [(st, ('F', self.fkey(f)))]
            if (b, attr) in st.heap:
                return [(st, st.heap[(b, attr)])]
            r = c.find_attr(attr)
            if r:
                cv = self.const_expr(r[0].module, r[1])
                if cv is not None and cv[0] in ('c', 't', 'C', 'F'):
                    return [(st, cv)]
                return [(st, ('a', ('C', r[0].name), attr))]
            return [(st, ('a', b, attr))]
        if self.attr_hook is not None and t not in ('M', 'g', 'C', 'super'):
            r = self.attr_hook(b, attr, st, self)
            if r is not None:
                return [(st, r)]
        self.emit(st, 'DEREF', node, b, attr)
        if (b, attr) in st.heap:
            return [(st, st.heap[(b, attr)])]
        c = self.cls(st, b)
        if c is not None:
            f = c.find(attr)
            if f is not None:
                if f.is_property:
                    return self.call_func(st, f, b, [], {}, None, None, node)
                if f.is_classmethod:
                    return [(st, ('b', self.fkey(f), ('C', c.name)))]
                if f.is_staticmethod:
                    return [(st, ('F', self.fkey(f)))]
                return [(st, ('b', self.fkey(f), b))]
            if attr == '__class__':
                return [(st, x('type', b))]
            if attr == '__dict__':
                return [(st, ('a', b, '__dict__'))]
            r = c.find_attr(attr)
            if r and not self.is_instance_field(c, attr):
                cv = self.const_expr(r[0].module, r[1])
                if cv is not None and cv[0] in ('c', 't', 'C', 'F'):
                    return [(st, cv)]
                return [(st, ('a', ('C', r[0].name), attr))]
        if b[0] == 'n':
            src = st.heap.get((b, '#copyof'))
            if src is not None:
                return self.load_attr(st, src, attr, node)
        elif c is None:
            cand = self.unique_property(attr)
            if cand is not None and self.typeof(st, b) is None and b[0] not in ('x',):
                return self.call_func(st, cand, b, [], {}, None, None, node)
        v = ('a', b, attr)
        if size(v) > SIZE_MAX:
            v = TOP
        self.emit(st, 'LOAD', node, b, attr)
        return [(st, v)]

    UNIQUE_PROPS = {'record_term_lc', 'parent_term_lc', 'join_lc', 'qualified_term', 'is_terminal',
                    'has_elided_parent', 'is_arg_child', 'descendents', 'arg_props', 'all_props', 'props'}

    def unique_property(self, attr):
        if attr in self.UNIQUE_PROPS:
            c = self.prog.classes.get('Term')
            f = c.find(attr) if c else None
            if f is not None and f.is_property:
                return f
        return None

    def is_instance_field(self, c, attr):
        key = (c.name, attr, 'inst')
        if key not in self._fieldcache:
            res = False
            for k in c.mro():
                if not isinstance(k, ClassInfo):
                    continue
                init = k.methods.get('__init__')
                if init is None:
                    continue
                for n in ast.walk(init.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr \
                            and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        res = True
            self._fieldcache[key] = res
        return self._fieldcache[key]

    def fkey(self, f):
        for k in (f.module.name + ':' + f.qual,):
            if self.prog.funcs.get(k) is f:
                return k
        k = f.module.name + ':' + f.qual + '@' + str(f.node.lineno)
        self.prog.funcs.setdefault(k, f)
        return k

    def ev_Subscript(self, st, e):
        out = []
        for s, b in self.eval(st, e.value):
            if isinstance(e.slice, ast.Slice):
                parts = [p for p in (e.slice.lower, e.slice.upper, e.slice.step)]
                res = [(s, [])]
                for p in parts:
                    if p is None:
                        res = [(s2, vs + [NONE]) for s2, vs in res]
                    else:
                        res = [(s3, vs + [v]) for s2, vs in res for s3, v in self.eval(s2, p)]
                for s2, vs in res:
                    self.emit(s2, 'DEREF', e, b, '[:]')
                    out.append((s2, self.slice(s2, b, vs, e)))
            else:
                for s2, k in self.eval(s, e.slice):
                    out += self.load_item(s2, b, k, e)
        return out

    def slice(self, st, b, vs, node):
        if is_const(b) and isinstance(cval(b), str) and all(is_const(v) for v in vs):
            try:
                return C(cval(b)[slice(*[cval(v) for v in vs])])
            except (TypeError, ValueError):
                return TOP
        seq = self.exact(st, b)
        if seq is not None and all(is_const(v) for v in vs):
            part = seq[slice(*[cval(v) for v in vs])]
            if b[0] == 't':
                return ('t',) + tuple(part)
            n = self.new('list', node)
            self.set_seq(st, n, part)
            return n
        t = self.typeof(st, b)
        if t == 'list' or isinstance(t, tuple) and t[0] == 'list':
            if all(v == NONE for v in vs[:2]) or b[0] == 'n':
                n = self.new('list', node)
                st.heap[(n, '[]')] = self.content(st, b)
                if any(v != NONE for v in vs[:2]) or any(v not in (NONE, C(1), C(-1)) for v in vs[2:]):
                    st.heap[(n, '#part')] = True
                return n
        return op('slice', b, *vs)

    def exact(self, st, v):
        if v[0] == 't':
            return list(v[1:])
        if v[0] == 'n' and v[1] in ('list', 'tuple', 'set'):
            seq = st.heap.get((v, '#seq'))
            if seq is not None:
                return list(seq[1:])
        if self.precise and self.iter_hook is not None:
            els = self.iter_hook(v, st, self)
            if els is not None:
                return list(els)
        return None

    def set_seq(self, st, n, vals):
        st.heap[(n, '#seq')] = ('t',) + tuple(vals)
        if vals:
            st.heap[(n, '[]')] = phi(vals)

    def content(self, st, v):
        """Abstract element of the collection v."""
        if v[0] == 't':
            return phi(v[1:]) if len(v) > 1 else ('u', 'empty')
        if v[0] == 'phi':
            return phi([self.content(st, m) for m in v[1]])
        if (v, '[]') in st.heap:
            return st.heap[(v, '[]')]
        if v[0] == 'n' and v[1] in ('list', 'set', 'tuple'):
            return ('u', 'empty')
        if v[0] == 'n' and v[1] == 'dict':
            return st.heap.get((v, '{k}'), ('k', v))
        t = self.typeof(st, v)
        if t == 'dict' or isinstance(t, tuple) and t[0] == 'dict':
            return ('k', v)
        if v[0] == 'o' and v[1] == 'slice':
            return ('e', v[2]) if size(v) < 60 else ('e', v)
        return ('e', v)

    def load_item(self, st, b, k, node):
        if b[0] == 'phi':
            out, vals = [], []
            for m in members(b):
                if m == NONE:
                    self.emit(st, 'DEREF', node, m, '[]')
                    continue
                rs = self.load_item(st, m, k, node)
                if len(rs) == 1 and rs[0][0] is st:
                    vals.append(rs[0][1])
                else:
                    out += rs
            if vals:
                out.append((st, phi(vals)))
            return out or [(st, TOP)]
        c = self.cls(st, b)
        if c is not None:
            f = c.find('__getitem__')
            if f is not None:
                self.emit(st, 'DEREF', node, b, '[]')
                return self.call_func(st, f, b, [k], {}, None, None, node)
        self.emit(st, 'DEREF', node, b, '[]')
        if is_const(b) and is_const(k):
            try:
                return [(st, C(cval(b)[cval(k)]))]
            except Exception:
                return [(st, TOP)]
        seq = self.exact(st, b)
        if seq is not None and is_const(k) and isinstance(cval(k), int) and -len(seq) <= cval(k) < len(seq):
            return [(st, seq[cval(k)])]
        self.emit(st, 'KEY', node, b, k, 'load')
        if (b, '[k]', k) in st.heap:
            return [(st, st.heap[(b, '[k]', k)])]
        if self.precise and is_const(k) and self.tracked(st, b):
            self.exc[-1].append((st.copy(), x('exc:KeyError', C(getattr(node, 'lineno', 0)))))
            return []
        r = self.dispatch(st, b, k, node)
        if r is not None:
            return r[0] or [(st, TOP)]
        if b[0] == 'n' and b[1] in ('dict', 'list'):
            if b[1] == 'dict':
                v = st.heap.get((b, '{}'))
            else:
                v = st.heap.get((b, '[]'))
            if v is not None:
                return [(st, v)]
        v = ('i', b, k)
        if size(v) > SIZE_MAX:
            v = TOP
        return [(st, v)]

    def tracked(self, st, b):
        """All keys of the dict b are known."""
        if b[0] != 'n' or b[1] != 'dict':
            return False
        if st.heap.get((b, '#empty')):
            return True
        kc = st.heap.get((b, '{k}'))
        return kc is not None and all(is_const(m) and (b, '[k]', m) in st.heap for m in members(kc))

    def dispatch(self, st, b, k, node):
        """Look an unknown key up in a literal dict with constant keys: ([(state, value)], state without match)."""
        if b[0] != 'n' or b[1] != 'dict' or is_const(k) or self.loop_depth:
            return None
        kc = st.heap.get((b, '{k}'))
        ents = [(kk[2], st.heap[kk]) for kk in st.heap if kk[0] == b and len(kk) == 3]
        if kc is None or not ents or len(ents) > 10 or not all(is_const(m) for m in members(kc)) or \
                not all(is_const(c) for c, _ in ents):
            return None
        out, rest = [], st
        for c, v in ents:
            if rest is None:
                break
            s2 = self.assume(rest, self.eq(k, c), True)
            if s2 is not None:
                s2 = s2.copy()
                out.append((s2, v))
            rest = self.assume(rest, self.eq(k, c), False)
        return out, rest

    def ev_Tuple(self, st, e):
        return self.display(st, e, 'tuple')

    def ev_List(self, st, e):
        return self.display(st, e, 'list')

    def ev_Set(self, st, e):
        return self.display(st, e, 'set')

    def display(self, st, e, kind):
        out = []
        starred = any(isinstance(x_, ast.Starred) for x_ in e.elts)
        for s, vs in self.eval_many(st, [x_.value if isinstance(x_, ast.Starred) else x_ for x_ in e.elts]):
            vals, exact = [], True
            for n, v in zip(e.elts, vs):
                if isinstance(n, ast.Starred):
                    seq = self.exact(s, v)
                    if seq is not None:
                        vals += seq
                    else:
                        vals.append(self.content_iter(s, v, n))
                        exact = False
                else:
                    vals.append(v)
            if kind == 'tuple' and exact:
                out.append((s, ('t',) + tuple(vals)))
                continue
            n = self.new(kind, e)
            s = s.copy()
            self.kill(s, n)
            if exact:
                self.set_seq(s, n, vals)
            else:
                s.heap[(n, '[]')] = phi(vals)
            out.append((s, n))
        return out

    def content_iter(self, st, v, node):
        """Element of anything iterable, running generators for their effect."""
        vals = []
        for s, mode, elems in self.iterate(st, v, node):
            vals += elems
        return phi(vals) if vals else ('u', 'empty')

    def kill(self, st, n):
        for k in [k for k in st.heap if k[0] == n]:
            del st.heap[k]

    def ev_Dict(self, st, e):
        out = []
        keys = [k for k in e.keys]
        nodes = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        for s, vs in self.eval_many(st, nodes):
            s = s.copy()
            n = self.new('dict', e)
            self.kill(s, n)
            it = iter(vs)
            if not e.keys:
                s.heap[(n, '#empty')] = TRUE
            for k in keys:
                if k is None:
                    src = next(it)
                    self.dict_update(s, n, src)
                else:
                    kv = next(it)
                    self.dict_set(s, n, kv, next(it))
            out.append((s, n))
        return out

    def dict_set(self, st, d, k, v, weak=False):
        st.heap.pop((d, '#empty'), None)
        old = st.heap.get((d, '[k]', k))
        st.heap[(d, '[k]', k)] = v if not (weak and old is not None) else phi([old, v])
        if d[0] == 'n':
            for cell, val in (('{}', v), ('{k}', k)):
                o = st.heap.get((d, cell))
                st.heap[(d, cell)] = val if o is None else phi([o, val])
        elif d[0] != 'n':
            # other keys may be the same key
            for kk in [kk for kk in st.heap if kk[0] == d and len(kk) == 3 and kk[2] != k and not (
                    is_const(kk[2]) and is_const(k))]:
                del st.heap[kk]

    def dict_update(self, st, d, src):
        if self.precise and src[0] == 'n' and st.heap.get((src, '#empty')):
            return
        if src[0] == 'n' and src[1] == 'dict':
            st.heap.pop((d, '#empty'), None)
            for kk in list(st.heap):
                if kk[0] == src:
                    if len(kk) == 3:
                        st.heap[(d, '[k]', kk[2])] = st.heap[kk]
                    elif kk[1] in ('{}', '{k}') and d[0] == 'n':
                        o = st.heap.get((d, kk[1]))
                        st.heap[(d, kk[1])] = st.heap[kk] if o is None else phi([o, st.heap[kk]])
        elif d[0] == 'n':
            st.heap.pop((d, '#empty'), None)
            o = st.heap.get((d, '{}'))
            new = ('i', src, ('k', src))
            st.heap[(d, '{}')] = new if o is None else phi([o, new])
            o = st.heap.get((d, '{k}'))
            st.heap[(d, '{k}')] = ('k', src) if o is None else phi([o, ('k', src)])
            for kk in [kk for kk in st.heap if kk[0] == d and len(kk) == 3]:
                st.heap[kk] = phi([st.heap[kk], ('i', src, kk[2])])

    def ev_JoinedStr(self, st, e):
        nodes = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
        out = []
        for s, vs in self.eval_many(st, nodes):
            it = iter(vs)
            templ, args = '', []
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    templ += '{}'
                    args.append(next(it))
                else:
                    templ += str(v.value).replace('{', '{{').replace('}', '}}')
            out.append((s, self.fmt(templ, args)))
        return out

    def fmt(self, templ, args):
        if all(is_const(a) for a in args):
            try:
                return C(templ.format(*[cval(a) for a in args]))
            except Exception:
                pass
        return op('fmt', C(templ), *args)

    def ev_FormattedValue(self, st, e):
        return self.eval(st, e.value)

    def ev_UnaryOp(self, st, e):
        if isinstance(e.op, ast.Not):
            out = []
            for s, v in self.eval(st, e.operand):
                t = self.truth(s, v)
                if t is not None:
                    out.append((s, C(not t)))
                else:
                    out.append((s, op('not', v)))
            return out
        out = []
        for s, v in self.eval(st, e.operand):
            if is_const(v) and isinstance(e.op, ast.USub):
                try:
                    out.append((s, C(-cval(v))))
                    continue
                except TypeError:
                    pass
            out.append((s, op(type(e.op).__name__, v)))
        return out

    def ev_BoolOp(self, st, e):
        is_and = isinstance(e.op, ast.And)
        live = [st]
        out = []
        for i, n in enumerate(e.values):
            nxt = []
            for s in live:
                for s2, v in self.eval(s, n):
                    if i == len(e.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.branch(s2, v, n):
                        v3 = v
                        if v[0] == 'phi':
                            ms = [m for m in members(v) if self.truth(s3, m) in (b, None)]
                            v3 = phi(ms) if ms else v
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            out.append((s3, v3))
            live = nxt
        return out

    def ev_IfExp(self, st, e):
        out = []
        for s, b in self.eval_cond(st, e.test):
            out += self.eval(s, e.body if b else e.orelse)
        return out

    def ev_Compare(self, st, e):
        out = []
        if len(e.ops) > 1:
            for s, vs in self.eval_many(st, [e.left] + e.comparators):
                out.append((s, op('chain', *vs)))
            return out
        o = e.ops[0]
        for s, (a, b) in self.eval_many(st, [e.left, e.comparators[0]]):
            out += self.compare(s, o, a, b, e)
        return out

    def compare(self, s, o, a, b, e):
        neg = False
        if isinstance(o, (ast.Eq, ast.NotEq)):
            self.emit(s, 'CMP', e, '==', a, b)
            v = op('isnone', a) if b == NONE else self.eq(a, b)
            neg = isinstance(o, ast.NotEq)
            # len(x) == 0
            for p, q in ((a, b), (b, a)):
                if q == C(0) and p[0] == 'x' and p[1] == 'len':
                    v, neg = p[2][0], not neg
            for p, q in ((a, b), (b, a)):
                if q == C('') and p[0] != 'c' and self.typeof(s, p) == 'str':
                    pass
        elif isinstance(o, (ast.Is, ast.IsNot)):
            v = op('isnone', a) if b == NONE else op('is', a, b)
            if a == NONE and b != NONE:
                v = op('isnone', b)
            neg = isinstance(o, ast.IsNot)
        elif isinstance(o, (ast.In, ast.NotIn)):
            neg = isinstance(o, ast.NotIn)
            c = self.cls(s, b)
            if c is not None and c.find('__contains__'):
                out = []
                for s2, v in self.call_func(s, c.find('__contains__'), b, [a], {}, None, None, e):
                    out.append((s2, op('not', v) if neg else v))
                return out
            self.emit(s, 'KEY', e, b, a, 'in')
            if b[0] == 'x' and b[1] == 'keys':
                b = b[2][0]
            v = op('in', a, b)
        elif isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            if isinstance(o, ast.Gt):
                v = op('<', b, a)
            elif isinstance(o, ast.GtE):
                v = op('<=', b, a)
            elif isinstance(o, ast.Lt):
                v = op('<', a, b)
            else:
                v = op('<=', a, b)
            # len(x) > 0, len(x) >= 1 are the truth of x
            if v[1] == '<' and v[2] == C(0) and v[3][0] == 'x' and v[3][1] == 'len':
                v = v[3][2][0]
            elif v[1] == '<=' and v[2] == C(1) and v[3][0] == 'x' and v[3][1] == 'len':
                v = v[3][2][0]
        else:
            v = op(type(o).__name__, a, b)
        if neg:
            t = self.truth(s, v)
            if t is not None:
                return [(s, C(not t))]
            return [(s, op('not', v))]
        return [(s, v)]

    def ev_BinOp(self, st, e):
        out = []
        for s, (a, b) in self.eval_many(st, [e.left, e.right]):
            out.append(self.binop(s, e.op, a, b, e))
        return out

    def kind(self, st, v):
        t = self.typeof(st, v)
        return t[0] if isinstance(t, tuple) else t

    def binop(self, s, o, a, b, e):
        if is_const(a) and is_const(b):
            try:
                r = {ast.Add: lambda p, q: p + q, ast.Sub: lambda p, q: p - q, ast.Mult: lambda p, q: p * q,
                     ast.Mod: lambda p, q: p % q}[type(o)](cval(a), cval(b))
                if not isinstance(r, (str, bytes)) or len(r) < 2000:
                    return (s, C(r))
            except Exception:
                pass
        ka, kb = self.kind(s, a), self.kind(s, b)
        if isinstance(o, ast.Add):
            if ka == 'list' or kb == 'list' and a[0] != 'o':
                s = s.copy()
                n = self.new('list', e, '+')
                self.kill(s, n)
                sa, sb = self.exact(s, a), self.exact(s, b)
                if sa is not None and sb is not None:
                    self.set_seq(s, n, sa + sb)
                else:
                    vals = (sa if sa is not None else [self.content(s, a)]) + \
                           (sb if sb is not None else [self.content(s, b)])
                    vals = [v for v in vals if v != ('u', 'empty')]
                    if vals:
                        s.heap[(n, '[]')] = phi(vals)
                    s.heap[(n, '#concat')] = ('t', a, b)
                    if sa or sb:
                        s.heap[(n, '#nonempty')] = TRUE
                    if sa:
                        s.heap[(n, '[k]', C(0))] = sa[0]
                return (s, n)
            if a[0] == 't' and b[0] == 't':
                return (s, a + b[1:])
            return (s, op('+', a, b))
        if isinstance(o, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)) and (ka in ('set', 'frozenset') or
                                                                           kb in ('set', 'frozenset')):
            s = s.copy()
            n = self.new('set', e, type(o).__name__)
            self.kill(s, n)
            cs = [self.content(s, a)]
            if isinstance(o, (ast.BitOr, ast.BitXor)):
                cs.append(self.content(s, b))
            cs = [v for v in cs if v != ('u', 'empty')]
            if cs:
                s.heap[(n, '[]')] = phi(cs)
            s.heap[(n, '#setop')] = ('t', C(type(o).__name__), a, b)
            ea, eb = self.exact(s, a), self.exact(s, b)
            if ea is not None and eb is not None and all(is_const(v) for v in ea + eb):
                if isinstance(o, ast.BitOr):
                    r = ea + [v for v in eb if v not in ea]
                elif isinstance(o, ast.Sub):
                    r = [v for v in ea if v not in eb]
                elif isinstance(o, ast.BitAnd):
                    r = [v for v in ea if v in eb]
                else:
                    r = [v for v in ea if v not in eb] + [v for v in eb if v not in ea]
                self.set_seq(s, n, r)
            return (s, n)
        if isinstance(o, ast.Mod) and is_const(a) and isinstance(cval(a), str):
            return (s, op('%', a, b))
        return (s, op(type(o).__name__, a, b))

    def ev_NamedExpr(self, st, e):
        out = []
        for s, v in self.eval(st, e.value):
            s = s.copy()
            s.env[e.target.id] = v
            self.emit(s, 'BIND', e, e.target.id, v)
            out.append((s, v))
        return out

    def ev_Starred(self, st, e):
        return self.eval(st, e.value)

    def ev_Lambda(self, st, e):
        return [self.closure(st, e, '<lambda>')]

    def closure(self, st, node, name):
        f0 = self.stack[-1][0] if self.stack else None
        key = ('L', (f0.qual if f0 else '?', node.lineno, node.col_offset, name))
        if key not in self.clo_funcs:
            if isinstance(node, ast.Lambda):
                f = Func.__new__(Func)
                f.module, f.qual, f.node, f.cls, f.outer = f0.module, f0.qual + '.<lambda>', node, f0.cls, f0
                f.name = '<lambda>'
                f.decorators = []
                f.is_property = f.is_setter = f.is_deleter = f.is_classmethod = f.is_staticmethod = False
                f.is_cached = f.is_cached_property = f.is_generator = False
            elif isinstance(node, ast.GeneratorExp):
                f = Func.__new__(Func)
                f.module, f.qual, f.node, f.cls, f.outer = f0.module, f0.qual + '.<genexp>', node, f0.cls, f0
                f.name = '<genexp>'
                f.decorators = []
                f.is_property = f.is_setter = f.is_deleter = f.is_classmethod = f.is_staticmethod = False
                f.is_cached = f.is_cached_property = False
                f.is_generator = True
            else:
                f = Func(f0.module, f0.qual + '.' + name, node, cls=f0.cls, outer=f0)
            self.clo_funcs[key] = f
        st = st.copy()
        st.clos[key] = dict(st.env)
        return (st, key)

    def ev_GeneratorExp(self, st, e):
        return [self.closure(st, e, '<genexp>')]

    def ev_ListComp(self, st, e):
        return self.comp(st, e, 'list')

    def ev_SetComp(self, st, e):
        return self.comp(st, e, 'set')

    def ev_DictComp(self, st, e):
        return self.comp(st, e, 'dict')

    def comp(self, st, e, kind):
        n = self.new(kind, e)
        st = st.copy()
        self.kill(st, n)
        if self.precise:
            if kind == 'list':
                st.heap[(n, '#seq')] = ('t',)
            elif kind == 'dict':
                st.heap[(n, '#empty')] = TRUE
        saved = st.env
        paths = self.comp_run(st, e.generators, e, n, kind)
        outs = []
        for s in paths:
            s = s.copy()
            s.env = dict(saved)
            outs.append(s)
        if not self.comp_paths:
            groups = {}
            for s in outs:
                groups.setdefault(s.events, []).append(s)
            outs = []
            for g in groups.values():
                m = self.merge(g)
                if m is g[0]:
                    m = m.copy()
                m.conds = dict(st.conds)
                m.types = dict(st.types)
                outs.append(m)
        return [(s, n) for s in outs]

    def comp_run(self, st, gens, e, n, kind):
        """End states of a comprehension that collects into n (or yields, for a generator expression)."""
        if not gens:
            res = []
            if kind == 'dict':
                for s, (k, v) in self.eval_many(st, [e.key, e.value]):
                    s = s.copy()
                    self.dict_set(s, n, k, v, weak=not (self.precise and self.loop_depth == 0))
                    self.emit(s, 'EMIT', e, n, v, k)
                    res.append(s)
            elif kind == 'gen':
                for s, v in self.eval(st, e.elt):
                    s = s.copy()
                    self.do_yield(s, v, e)
                    s.env['#yielded'] = TRUE
                    res.append(s)
            else:
                for s, v in self.eval(st, e.elt):
                    s = s.copy()
                    o = s.heap.get((n, '[]'))
                    s.heap[(n, '[]')] = v if o is None else phi([o, v])
                    if (n, '#seq') in s.heap:
                        seq = s.heap.pop((n, '#seq'))
                        if self.loop_depth == 0:
                            s.heap[(n, '#seq')] = seq + (v,)
                    self.emit(s, 'EMIT', e, n, v, NONE)
                    res.append(s)
            return res
        g = gens[0]
        out = []
        for s, itv in self.eval(st, g.iter):
            for s1, mode, elems in self.iterate(s, itv, g.iter):
                if self.seqs and mode != 'exact':
                    s1 = s1.copy()
                    s1.heap[(('u', 'path'), 'fuzzy')] = TRUE
                live = [s1]
                if mode == 'exact':
                    for el in elems:
                        nxt = []
                        for s2 in live:
                            nxt += self.comp_iter(s2, g, gens, el, e, n, kind)
                        live = self.limit(nxt)
                        if len(live) > 6 and not self.comp_paths:
                            live = self.group(live)
                    out += live
                else:
                    self.loop_depth += 1
                    zero = s1.copy()
                    self.emit(zero, 'ITERNONE', g.iter, itv)
                    res = []
                    for el in elems:
                        s2 = s1.copy()
                        self.emit(s2, 'ITER', g.iter, itv, el, 'comp')
                        for s3 in self.comp_iter(s2, g, gens, el, e, n, kind):
                            self.emit(s3, 'ITEREND', g.iter, itv, el)
                            res.append(s3)
                    self.loop_depth -= 1
                    out += res if mode == 'one' else [zero] + res
        return out

    def comp_iter(self, st, g, gens, el, e, n, kind):
        res = []
        st = st.copy()
        for s in self.assign(st, g.target, el):
            live = [s]
            skipped = []
            for cond in g.ifs:
                nxt = []
                for s2 in live:
                    for s3, b in self.eval_cond(s2, cond):
                        (nxt if b else skipped).append(s3)
                live = nxt
            for s2 in live:
                res += self.comp_run(s2, gens[1:], e, n, kind)
            res += skipped
        return res

    def ev_Yield(self, st, e):
        if e.value is None:
            self.do_yield(st, NONE, e)
            return [(st, ('u', 'sent'))]
        out = []
        for s, v in self.eval(st, e.value):
            s = s.copy()
            self.do_yield(s, v, e)
            out.append((s, ('u', 'sent')))
        return out

    def do_yield(self, st, v, node):
        self.emit(st, 'YIELD', node, v)
        if self.gens:
            self.gens[-1].append((v, st.copy()))
            if self.seqs and self.gen_ids:
                g, depth = self.gen_ids[-1]
                out = st.heap.pop((g, '#out'), None)
                if out is not None and self.loop_depth == depth:
                    st.heap[(g, '#out')] = out + (v,)

    def ev_YieldFrom(self, st, e):
        out = []
        for s, v in self.eval(st, e.value):
            for s1, mode, elems in self.iterate(s, v, e):
                s1 = s1.copy()
                if mode == 'exact':
                    for el in elems:
                        self.do_yield(s1, el, e)
                    out.append((s1, ('u', 'sent')))
                else:
                    if self.comp_paths and mode != 'one':
                        s0 = s1.copy()
                        self.emit(s0, 'ITERNONE', e, v)
                        out.append((s0, ('u', 'sent')))
                    for el in elems:
                        s2 = s1.copy()
                        self.emit(s2, 'ITER', e, v, el, 'from')
                        self.do_yield(s2, el, e)
                        self.emit(s2, 'ITEREND', e, v, el)
                        out.append((s2, ('u', 'sent')))
                    if not elems:
                        out.append((s1, ('u', 'sent')))
        if not self.comp_paths:
            out = [(s, ('u', 'sent')) for s in self.group([s for s, _ in out])]
        return out

    def ev_Await(self, st, e):
        return self.eval(st, e.value)

    # ------------------------------------------------------------------ iteration

    def iterate(self, st, v, node):
        """[(state, 'exact'|'alt'|'one', [elements])]: all of the elements, any number of them, or one of them"""
        t = v[0]
        if t == 'phi':
            out = []
            for m in members(v):
                if m == NONE:
                    self.emit(st, 'DEREF', node, m, 'iter')
                    continue
                out += self.iterate(st, m, node)
            alts = [o for o in out if o[1] == 'alt']
            if len(alts) == len(out) and out and all(o[0] is st for o in out):
                els = []
                for o in out:
                    els += [x_ for x_ in o[2] if x_ not in els]
                return [(st, 'alt', els)]
            return out or [(st, 'alt', [TOP])]
        self.emit(st, 'DEREF', node, v, 'iter')
        self.emit(st, 'ITERATE', node, v)
        if self.iter_hook is not None:
            els = self.iter_hook(v, st, self)
            if els is not None:
                return [(st, 'exact', list(els))]
        seq = self.exact(st, v)
        if seq is not None and len(seq) <= self.const_unroll:
            if v[0] == 'n' and v[1] == 'set':
                return [(st, 'alt', list(dict.fromkeys(seq)))]
            return [(st, 'exact', seq)]
        if t == 'n' and v[1] == 'gen':
            return self.run_gen(st, v, node)
        if t == 'L':
            f = self.clo_funcs.get(v)
            if f is not None and f.name == '<genexp>':
                return self.run_genexp(st, v, f, node)
        if t == 'x':
            name = v[1]
            if name == 'enumerate':
                out = []
                start = v[2][1] if len(v[2]) > 1 else C(0)
                for s, mode, els in self.iterate(st, v[2][0], node):
                    if mode == 'exact' and is_const(start):
                        out.append((s, mode, [('t', C(cval(start) + i), el) for i, el in enumerate(els)]))
                    else:
                        out.append((s, mode, [('t', op('idx', v[2][0], start), el) for el in els]))
                return out
            if name in ('items', 'values', 'keys'):
                d = v[2][0]
                if d[0] == 'n' and d[1] == 'dict':
                    ents = [(kk[2], st.heap[kk]) for kk in st.heap if kk[0] == d and len(kk) == 3]
                    allc = st.heap.get((d, '{}'))
                    keyc = st.heap.get((d, '{k}'))
                    if ents and all(is_const(k) for k, _ in ents) and (
                            keyc is None or all(is_const(m) for m in members(keyc))) and \
                            len(ents) <= self.const_unroll and self.loop_depth == 0:
                        if name == 'items':
                            return [(st, 'exact', [('t', k, val) for k, val in ents])]
                        if name == 'values':
                            return [(st, 'exact', [val for k, val in ents])]
                        return [(st, 'exact', [k for k, val in ents])]
                    if st.heap.get((d, '#empty')):
                        return [(st, 'exact', [])]
                    k = keyc if keyc is not None else ('k', d)
                    val = allc if allc is not None else ('i', d, ('k', d))
                    if ents and name == 'items':
                        els = [('t', kk, vv) for kk, vv in ents][:self.const_unroll]
                        return [(st, 'alt', els)]
                else:
                    k, val = ('k', d), ('i', d, ('k', d))
                    if (d, '[k]', ('k', d)) in st.heap:
                        val = st.heap[(d, '[k]', ('k', d))]
                el = ('t', k, val) if name == 'items' else val if name == 'values' else k
                return [(st, 'alt', [el])]
            if name == 'zip' and self.precise and len(v) == 3 and all(self.exact(st, a) is not None for a in v[2]):
                return [(st, 'exact', [('t',) + c for c in zip(*[self.exact(st, a) for a in v[2]])])]
            if name == 'zip':
                outs = [(st, [])]
                for a in v[2]:
                    nxt = []
                    for s, cols in outs:
                        for s2, mode, els in self.iterate(s, a, node):
                            nxt.append((s2, cols + [phi(els) if els else ('u', 'empty')]))
                    outs = nxt
                if any(('u', 'empty') in cols for s, cols in outs):
                    return [(s, 'exact', []) if ('u', 'empty') in cols else (s, 'alt', [('t',) + tuple(cols)])
                            for s, cols in outs]
                return [(s, 'alt', [('t',) + tuple(cols)]) for s, cols in outs]
            if name in ('reversed', 'iter', 'tee'):
                return [(s, 'alt' if name == 'tee' else mode, list(reversed(els)) if name == 'reversed' else els)
                        for s, mode, els in self.iterate(st, v[2][0], node)]
            if name == 'filter' and len(v[2]) == 2 and v[2][0] == NONE:
                out = []
                for s, mode, els in self.iterate(st, v[2][1], node):
                    if mode != 'exact' or len(els) > 4:
                        out.append((s, 'alt', els))
                        continue
                    ways = [(s, [])]
                    for el in els:
                        ways = [(s3, ks + [el] if b else ks) for s2, ks in ways for s3, b in self.branch(s2, el)]
                    out += [(s2, 'exact', ks) for s2, ks in ways]
                return out
            if name == 'filter' and len(v[2]) == 2 and self.comp_paths:
                out = []
                for s, mode, els in self.iterate(st, v[2][1], node):
                    zero = s.copy()
                    self.emit(zero, 'ITERNONE', node, v[2][1])
                    out.append((zero, 'exact', []))
                    for el in els:
                        s1 = s.copy()
                        self.emit(s1, 'ITER', node, v[2][1], el, 'comp')
                        for s2, r in self.call_value(s1, v[2][0], [el], {}, None, None, node):
                            for s3, b in self.branch(s2, r):
                                s3 = s3.copy()
                                self.emit(s3, 'ITEREND', node, v[2][1], el)
                                out.append((s3, 'one', [el]) if b else (s3, 'exact', []))
                return out
            if name == 'filter' and len(v[2]) == 2:
                return [(s, 'alt', els) for s, mode, els in self.iterate(st, v[2][1], node)]
            if name == 'map' and len(v[2]) == 2:
                out = []
                for s, mode, els in self.iterate(st, v[2][1], node):
                    res = [(s, [])]
                    for el in els:
                        nxt = []
                        for s2, rs in res:
                            for s3, r in self.call_value(s2, v[2][0], [el], {}, None, None, node):
                                nxt.append((s3, rs + [r]))
                        res = nxt
                    out += [(s2, mode, rs) for s2, rs in res]
                return out
            if name == 'itertools.chain':
                outs = [(st, [], 'exact')]
                for a in v[2]:
                    nxt = []
                    for s, els0, m0 in outs:
                        for s2, mode, els in self.iterate(s, a, node):
                            nxt.append((s2, els0 + els, mode if m0 == 'exact' else m0))
                    outs = nxt
                return [(s, m, els) for s, els, m in outs]
            if name == 'range':
                return [(st, 'alt', [x('each', v)])]
            if name == 'itertools.groupby':
                return [(st, 'alt', [('t', x('groupkey', *v[2]), x('group', *v[2]))])]
            if name == 'group':
                return self.iterate(st, v[2][0], node)
        c = self.cls(st, v)
        if c is not None:
            f = c.find('__iter__')
            if f is not None:
                res = self.call_func(st, f, v, [], {}, None, None, node)
                out = []
                for s, g in res:
                    if g == v:
                        nf = c.find('__next__')
                        if nf is not None:
                            for s2, r in self.call_func(s, nf, v, [], {}, None, None, node):
                                out.append((s2, 'alt', [r]))
                            continue
                        out.append((s, 'alt', [('e', v)]))
                    else:
                        out += self.iterate(s, g, node)
                return out
        if t == 'n' and v[1] == 'list' and st.heap.get((v, '#concat')):
            # a + b: the elements of both
            _, a, b = st.heap[(v, '#concat')]
            els = []
            for part in (a, b):
                sq = self.exact(st, part)
                if sq is not None:
                    els += sq
                else:
                    els.append(self.content(st, part))
            return [(st, 'alt', [e_ for e_ in els if e_ != ('u', 'empty')])]
        el = self.content(st, v)
        if el == ('u', 'empty'):
            return [(st, 'exact', [])]
        return [(st, 'alt', members(el))]

    def run_gen(self, st, v, node):
        rec = st.heap.get((v, '#gen'))
        env = st.clos.get(v)
        if rec is None or env is None:
            return [(st, 'alt', [('e', v)])]
        f = self.prog.funcs.get(rec[1]) if isinstance(rec[1], str) else self.clo_funcs.get(rec[1])
        if f is None:
            return [(st, 'alt', [('e', v)])]
        if self.depth_of(f) > self.max_rec or len(self.stack) > self.max_depth:
            return [(st, 'alt', [x('rec:' + f.qual, *[env[k] for k in sorted(env) if isinstance(env[k], tuple)][:3])])]
        sink = []
        self.gens.append(sink)
        s0 = st.copy()
        saved_env = st.env
        s0.env = dict(env)
        if self.seqs:
            s0.heap[(v, '#out')] = ('t',)
        self.gen_ids.append((v, self.loop_depth))
        outs = self.run_body(s0, f, node)
        self.gen_ids.pop()
        self.gens.pop()
        ends, raises = [], []
        for s, k, val in outs:
            s = s.copy()
            s.env = dict(saved_env)
            if k == 'raise':
                raises.append((s, val))
            else:
                ends.append(s)
        self.exc[-1] += self.group_raises(raises)
        if not ends and not sink:
            return []
        if self.seqs and ends and all((v, '#out') in s.heap for s in ends):
            res = []
            for s in ends:
                els = Elements(s.heap.pop((v, '#out'))[1:])
                src = s.heap.pop((v, '#src'), None)
                if src is not None and self.exact(s, src) == list(els):
                    els.src = src
                res.append((s, 'exact', els))
            return res
        return self.gen_result(st, ends, sink, saved_env, node)

    def gen_result(self, st, ends, sink, saved_env, node):
        elems = []
        for val, s in sink:
            if val not in elems:
                elems.append(val)
        base = ends + [s for _, s in sink]
        if self.comp_paths:
            # each yield is a state in which the consumer continues; the end states follow an empty or finished
            # generator
            out = []
            seen = set()
            for val, s in sink:
                s = s.copy()
                s.env = dict(saved_env)
                self.emit(s, 'GENVAL', node, val)
                out.append((s, 'one', [val]))
            for s in self.group([e for e in ends]):
                s = s.copy()
                self.emit(s, 'GENEND', node)
                out.append((s, 'exact', []))
            if len(out) > self.cap:
                self.capped += 1
                out = out[:self.cap]
            return out
        groups = {}
        for s in base:
            groups.setdefault(s.events, []).append(s)
        best = max(groups, key=len)
        m = self.merge(base)
        if m is base[0]:
            m = m.copy()
        m.env = dict(saved_env)
        m.conds = dict(st.conds)
        m.events = best
        return [(m, 'alt', elems)] if elems else [(m, 'exact', [])]

    def run_genexp(self, st, v, f, node):
        env = dict(st.clos.get(v, {}))
        cur = self.stack[-1][0]
        merged = dict(env)
        if f.outer is cur:
            merged.update(st.env)
        s0 = st.copy()
        saved = st.env
        s0.env = merged
        sink = []
        if self.exact_comp and len(f.node.generators) == 1 and (self.seqs or not f.node.generators[0].ifs):
            g = f.node.generators[0]
            self.stack.append((f, self.where(node)))
            done = []
            for s1, itv in self.eval(s0, g.iter):
                seq = self.exact(s1, itv)
                if seq is None:
                    done = None
                    break
                live = [(s1, [])]
                for el in seq:
                    nxt = []
                    for s2, vals in live:
                        for s3 in self.assign(s2.copy(), g.target, el):
                            keep, drop = [s3], []
                            for c in g.ifs:
                                yes = []
                                for s4 in keep:
                                    for s5, b in self.eval_cond(s4, c):
                                        (yes if b else drop).append(s5)
                                keep = yes
                            for s5 in keep:
                                for s4, val in self.eval(s5, f.node.elt):
                                    nxt.append((s4, vals + [val]))
                            nxt += [(s4, vals) for s4 in drop]
                    live = nxt
                done += live
            self.stack.pop()
            if done:
                out = []
                for s, vals in done:
                    s = s.copy()
                    s.env = dict(saved)
                    out.append((s, 'exact', vals))
                return out
        self.gens.append(sink)
        self.gen_ids.append((None, 0))
        self.stack.append((f, self.where(node)))
        self.exc.append([])
        ends = self.comp_run(s0, f.node.generators, f.node, None, 'gen')
        raised = self.exc.pop()
        self.stack.pop()
        self.gen_ids.pop()
        self.gens.pop()
        for s, ev in raised:
            s = s.copy()
            s.env = dict(saved)
            self.exc[-1].append((s, ev))
        ends2 = []
        for s in ends:
            s = s.copy()
            s.env = dict(saved)
            ends2.append(s)
        if self.comp_paths:
            out = []
            for val, s in sink:
                s = s.copy()
                s.env = dict(saved)
                out.append((s, 'one', [val]))
            for s in self.group([s for s in ends if '#yielded' not in s.env]):
                s = s.copy()
                s.env = dict(saved)
                out.append((s, 'exact', []))
            return out
        return self.gen_result(st, ends2, sink, saved, node)

    # ------------------------------------------------------------------ calls

    def ev_Call(self, st, e):
        # super()
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in st.env:
            fn = self.stack[-1][0]
            cname = fn.cls.name if fn.cls else None
            selfv = st.env.get(fn.params[0]) if fn.params else None
            if e.args:
                out = []
                for s, vs in self.eval_many(st, e.args):
                    if vs[0][0] == 'C' and len(vs) > 1:
                        out.append((s, ('super', vs[0][1], vs[1])))
                    else:
                        out.append((s, TOP))
                return out
            if cname and selfv:
                return [(st, ('super', cname, selfv))]
            return [(st, TOP)]
        out = []
        if isinstance(f, ast.Attribute):
            recvs = []
            for s, b in self.eval(st, f.value):
                recvs.append((s, b))
            for s, b in recvs:
                for s2, args, kw, star, dstar in self.eval_args(s, e):
                    out += self.call_method(s2, b, f.attr, args, kw, star, dstar, e)
        else:
            for s, fv in self.eval(st, f):
                for s2, args, kw, star, dstar in self.eval_args(s, e):
                    out += self.call_value(s2, fv, args, kw, star, dstar, e)
        return out

    def eval_args(self, st, e):
        pos = [a for a in e.args]
        nodes = [a.value if isinstance(a, ast.Starred) else a for a in pos] + [k.value for k in e.keywords]
        res = []
        for s, vs in self.eval_many(st, nodes):
            args, star = [], None
            for n, v in zip(pos, vs):
                if isinstance(n, ast.Starred):
                    seq = self.exact(s, v)
                    if seq is not None:
                        args += seq
                    else:
                        star = v
                else:
                    args.append(v)
            kw, dstar = {}, None
            for k, v in zip(e.keywords, vs[len(pos):]):
                if k.arg is None:
                    if v[0] == 'n' and v[1] == 'dict' and s.heap.get((v, '{k}')) is not None and \
                            all(is_const(m) for m in members(s.heap[(v, '{k}')])):
                        for kk in list(s.heap):
                            if kk[0] == v and len(kk) == 3:
                                kw[str(cval(kk[2]))] = s.heap[kk]
                    elif v[0] == 'n' and v[1] == 'dict' and s.heap.get((v, '#empty')):
                        pass
                    elif self.seqs and is_const(v):
                        self.exc[-1].append((s, x('exc:TypeError', C(getattr(e, 'lineno', 0)))))
                        kw = None
                        break
                    elif self.seqs and self.iter_hook is not None and v[0] == 'p' and self.iter_hook(x('items', v), s, self) is not None:
                        kw.update((str(cval(w[1])), w[2]) for w in self.iter_hook(x('items', v), s, self))
                    else:
                        dstar = v
                else:
                    kw[k.arg] = v
            if kw is not None:
                res.append((s, args, kw, star, dstar))
        return res

    def call_method(self, st, b, name, args, kw, star, dstar, node):
        if b[0] == 'phi':
            out = []
            for m in members(b):
                if m == NONE:
                    self.emit(st, 'DEREF', node, m, name)
                    continue
                out += self.call_method(st.copy(), m, name, args, kw, star, dstar, node)
            return out or [(st, TOP)]
        if b[0] == 'x' and b[1] == 'type' and len(b[2]) == 1 and self.cls(st, b[2][0]) is not None and \
                self.cls(st, b[2][0]).find(name) is not None:
            b = ('C', self.cls(st, b[2][0]).name)
        if b[0] in ('M', 'super', 'C'):
            if b[0] == 'C' and name == '__setattr__':
                pass
            out = []
            for s, fv in self.load_attr(st, b, name, node):
                out += self.call_value(s, fv, args, kw, star, dstar, node)
            return out
        if b[0] == 'g':
            return self.call_external(st, b[1] + '.' + name, args, kw, star, dstar, node)
        c = self.cls(st, b)
        if c is not None:
            f = c.find(name)
            if f is not None:
                if f.is_property:
                    out = []
                    for s, fv in self.load_attr(st, b, name, node):
                        out += self.call_value(s, fv, args, kw, star, dstar, node)
                    return out
                selfv = ('C', c.name) if f.is_classmethod else None if f.is_staticmethod else b
                if not f.is_classmethod and not f.is_staticmethod:
                    self.emit(st, 'DEREF', node, b, name)
                return self.call_func(st, f, selfv, args, kw, star, dstar, node)
            if name in ('__getattribute__', '__setattr__') or name in c.attrs or self.is_instance_field(c, name):
                pass
            self.emit(st, 'DEREF', node, b, name)
            if (b, name) in st.heap:
                return self.call_value(st, st.heap[(b, name)], args, kw, star, dstar, node)
            if not c.external_bases() or all(x_ == 'object' for x_ in c.external_bases()):
                if not self.is_instance_field(c, name) and not name.startswith('__') and c.find_attr(name) is None:
                    self.emit(st, 'NOMETHOD', node, b, c.name, name)
            return self.ext_method(st, b, name, args, kw, star, dstar, node)
        self.emit(st, 'DEREF', node, b, name)
        if (b, name) in st.heap and b[0] in ('n',):
            fv = st.heap[(b, name)]
            if fv[0] in ('L', 'F', 'b', 'C'):
                return self.call_value(st, fv, args, kw, star, dstar, node)
        t = self.typeof(st, b)
        if t is None or b[0] in ('a', 'e', 'i', 'x', 'p', 'u', 'lv'):
            if name not in MUTATORS and name not in STR_OPS and name not in CONTAINER_READS and \
                    name not in ('find', 'open', 'close', 'write', 'read', 'format', 'join', 'match', 'search',
                                 'encode', 'decode', 'exists', 'get_resource', 'get_target', 'join_target') \
                    and t is None and b[0] != 'x':
                cands = [k for k in ('Term', 'SectionTerm', 'MetatabDoc', 'TermParser')
                         if k in self.prog.classes and name in self.prog.classes[k].methods]
                if len(cands) == 1 or cands[:2] == ['Term', 'SectionTerm']:
                    f = self.prog.classes[cands[0]].methods[name]
                    if not f.is_property:
                        return self.call_func(st, f, ('C', cands[0]) if f.is_classmethod else
                                              None if f.is_staticmethod else b, args, kw, star, dstar, node)
        return self.ext_method(st, b, name, args, kw, star, dstar, node)

    def ext_method(self, st, b, name, args, kw, star, dstar, node):
        """A method of something that is not an instance of a package class."""
        kind = self.kind(st, b)
        if b[0] == 'b' or b[0] == 'F':
            self.emit(st, 'XCALL', node, '.' + name, b, tuple(args), tuple(sorted(kw.items())))
            return [(st, ('u', name))]
        if name == 'format' and (kind == 'str' or is_const(b) or b[0] == 'o'):
            if is_const(b) and isinstance(cval(b), str) and not kw and not star:
                t = cval(b)
                return [(st, self.fmt(t, args))]
            extra = [self.content(st, star)] if star else []
            if star is not None:
                seq = self.exact(st, star)
                extra = seq if seq is not None else extra
            return [(st, op('fmt', b, *(list(args) + extra + [v for _, v in sorted(kw.items())])))]
        if name == 'join' and (kind == 'str' or is_const(b)):
            out = []
            for s, mode, els in self.iterate(st, args[0], node) if args else []:
                self.emit(s, 'JOIN', node, args[0])
                if mode == 'exact':
                    if all(is_const(x_) for x_ in els) and is_const(b):
                        try:
                            out.append((s, C(cval(b).join(cval(x_) for x_ in els))))
                            continue
                        except TypeError:
                            pass
                    out.append((s, op('join', b, *els)))
                else:
                    out.append((s, op('join', b, phi(els))))
            if not self.comp_paths and out:
                return [(out[0][0] if len(out) == 1 else self.group([s for s, _ in out])[0], phi([v for _, v in out]))]
            return out
        if name in STR_OPS and kind not in ('list', 'dict', 'set', 'tuple', 'deque') and not (
                name == 'replace' and len(args) + len(kw) == 1):
            if is_const(b) and all(is_const(a) for a in args) and not kw:
                try:
                    r = getattr(cval(b), name)(*[cval(a) for a in args])
                    if isinstance(r, (list, tuple)):
                        n = self.new('list', node)
                        st = st.copy()
                        self.kill(st, n)
                        self.set_seq(st, n, [C(a) for a in r])
                        return [(st, n)]
                    return [(st, C(r))]
                except Exception:
                    pass
            if name in ('lower', 'casefold') and b[0] == 'o' and b[1] in ('lower',):
                return [(st, b)]
            if name in ('startswith', 'endswith'):
                if is_const(b) and isinstance(cval(b), str) and len(args) == 1 and args[0][0] == 't' and all(
                        is_const(a) and isinstance(cval(a), str) for a in args[0][1:]):
                    return [(st, C(getattr(cval(b), name)(tuple(cval(a) for a in args[0][1:]))))]
                v = op(name, b, *args)
                return [(st, v)]
            if name in ('encode', 'decode'):
                enc = args[0] if args else kw.get('encoding', C('utf-8'))
                err = args[1] if len(args) > 1 else kw.get('errors', C('strict'))
                self.emit(st, 'XCALL', node, '.' + name, b, (enc, err), ())
                return [(st, op(name, b, enc, err))]
            if name == 'replace' and len(args) >= 2:
                return [(st, op('replace', b, *args))]
            return [(st, op(name, b, *args))]
        if self.precise and self.plain is not None and name in ('append', 'extend', 'insert', 'add', 'update') and self.plain(b):
            self.exc[-1].append((st.copy(), x('exc:AttributeError', C(getattr(node, 'lineno', 0)))))
            return []
        if name in MUTATORS and not (b[0] == 'x' and kind not in CONTAINER_KINDS and
                                     not (b[1] in ('get', 'rec'))) and b[0] not in ('g',):
            return self.mutate(st, b, name, args, kw, star, node)
        if name in CONTAINER_READS:
            return self.container_read(st, b, name, args, kw, node)
        self.emit(st, 'XCALL', node, '.' + name, b, tuple(args) + ((('kw', '*', star),) if star else ()),
                  tuple(sorted(kw.items())))
        if name == 'open' or (name == '__enter__' and kind == 'file'):
            return [(st, x('open', b, *(list(args) + [('kw', k, v) for k, v in sorted(kw.items())])))]
        st.ver += 0
        return [(st, x('.' + name, b, *(list(args) + [('kw', k, v) for k, v in sorted(kw.items())])))]

    def container_read(self, st, b, name, args, kw, node):
        if self.seqs and name in ('index', 'count') and len(args) == 1:
            seq = self.exact(st, b)
            if seq is not None:
                ts = [True if el == args[0] else self.truth(st, self.eq(el, args[0])) for el in seq]
                if None not in ts:
                    if name == 'count':
                        return [(st, C(ts.count(True)))]
                    if True in ts:
                        return [(st, C(ts.index(True)))]
                    self.exc[-1].append((st, x('exc:ValueError', C(getattr(node, 'lineno', 0)))))
                    return []
        if name == 'get' and args:
            self.emit(st, 'KEY', node, b, args[0], 'get', args[1] if len(args) > 1 else kw.get('default', NONE))
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            if (b, '[k]', args[0]) in st.heap:
                v = st.heap[(b, '[k]', args[0])]
                if b[0] == 'n' and is_const(args[0]) and self.loop_depth == 0:
                    return [(st, v)]
                return [(st, phi([v, d]))]
            if b[0] == 'n' and b[1] == 'dict':
                kc = st.heap.get((b, '{k}'))
                if st.heap.get((b, '#empty')):
                    return [(st, d)]
                if kc is not None and is_const(args[0]) and all(is_const(m) for m in members(kc)):
                    return [(st, d)]
                r = self.dispatch(st, b, args[0], node)
                if r is not None:
                    return r[0] + ([(r[1].copy(), d)] if r[1] is not None else [])
                cont = st.heap.get((b, '{}'))
                if cont is not None:
                    return [(st, phi([cont, d]))]
            v = ('i', b, args[0])
            if size(v) > SIZE_MAX:
                v = TOP
            return [(st, phi([v, d]))]
        if name in ('items', 'keys', 'values'):
            return [(st, x(name, b))]
        if name == 'copy':
            return self.copy_container(st, b, node, self.kind(st, b) or 'copy')
        if name in ('union', 'difference', 'intersection', 'symmetric_difference'):
            o = {'union': ast.BitOr(), 'difference': ast.Sub(), 'intersection': ast.BitAnd(),
                 'symmetric_difference': ast.BitXor()}[name]
            s, v = st, b
            for a in args:
                n = self.new('set', node)
                s = s.copy()
                self.kill(s, n)
                cs = [self.content(s, v)]
                if name in ('union', 'symmetric_difference'):
                    cs.append(self.content(s, a))
                cs = [c_ for c_ in cs if c_ != ('u', 'empty')]
                if cs:
                    s.heap[(n, '[]')] = phi(cs)
                v = n
            return [(s, v)]
        return [(st, x('.' + name, b, *args))]

    def copy_container(self, st, b, node, kind):
        if kind not in ('list', 'dict', 'set', 'tuple'):
            kind = 'copy' if kind not in self.prog.classes else kind
        st = st.copy()
        n = self.new(kind, node)
        self.kill(st, n)
        if kind in ('list', 'set', 'tuple'):
            seq = self.exact(st, b)
            if seq is not None:
                self.set_seq(st, n, seq)
            else:
                c = self.content(st, b)
                if c != ('u', 'empty'):
                    st.heap[(n, '[]')] = c
        elif kind == 'dict':
            self.dict_update(st, n, b)
        else:
            st.heap[(n, '#copyof')] = b
        return [(st, n)]

    def mutate(self, st, b, name, args, kw, star, node):
        st = st.copy()
        if name in ('pop', 'setdefault', '__setitem__', '__delitem__') and args and \
                self.kind(st, b) not in ('list', 'set'):
            self.emit(st, 'KEY', node, b, args[0], name)
        allargs = list(args) + [v for k, v in sorted(kw.items())]
        if name in ('extend', 'update') and args:
            # run generators that are consumed
            for a in args:
                if a[0] in ('L',) or (a[0] == 'n' and a[1] == 'gen') or (a[0] == 'x' and a[1] in (
                        'map', 'filter', 'zip', 'enumerate', 'itertools.chain')):
                    res = self.iterate(st, a, node)
                    if res:
                        if self.comp_paths:
                            out = []
                            for s, mode, els in res:
                                s = s.copy()
                                self.emit(s, 'MUT', node, b, name, ('iterated', a), tuple(els))
                                for el in els:
                                    if self.seqs and name == 'update' and el[0] == 't' and len(el) == 3:
                                        self.dict_set(s, b, el[1], el[2], weak=mode != 'exact')
                                        continue
                                    self.add_elem(s, b, el)
                                if self.precise and mode != 'exact':
                                    s.heap.pop((b, '#seq'), None)
                                out.append((s, NONE))
                            return out
                        s, mode, els = res[0]
                        st = s.copy()
                        self.emit(st, 'MUT', node, b, name, ('iterated', a), tuple(els))
                        for el in els:
                            if name == 'update' and el[0] == 't' and len(el) == 3:
                                self.dict_set(st, b, el[1], el[2], weak=True)
                            else:
                                self.add_elem(st, b, el)
                        return [(st, NONE)]
        self.emit(st, 'MUT', node, b, name, (), tuple(allargs))
        st.conds = {k: v for k, v in st.conds.items() if not (k == b or (k[0] == 'o' and k[1] == 'in' and k[3] == b))}
        if self.seqs and name == 'move_to_end' and args and (b, '[k]', args[0]) in st.heap and (
                len(args) > 1 and is_const(args[1]) or is_const(kw.get('last', TRUE))):
            last = cval(args[1]) if len(args) > 1 else cval(kw.get('last', TRUE))
            v = st.heap.pop((b, '[k]', args[0]))
            if last:
                st.heap[(b, '[k]', args[0])] = v
            else:
                rest = dict(st.heap)
                st.heap.clear()
                st.heap[(b, '[k]', args[0])] = v
                st.heap.update(rest)
            return [(st, NONE)]
        if self.seqs and b[0] == 'n' and self.seq_edit(st, b, name, args, kw, node):
            return [(st, self.seq_result)] if self.seq_result is not None else []
        if name in ('append', 'add', 'appendleft'):
            if args:
                self.add_elem(st, b, args[0])
            return [(st, NONE)]
        if name == 'insert':
            if len(args) > 1:
                self.add_elem(st, b, args[1], front=True)
            return [(st, NONE)]
        if name in ('extend', 'extendleft'):
            for a in args:
                seq = self.exact(st, a)
                for el in (seq if seq is not None else [self.content(st, a)]):
                    if el != ('u', 'empty'):
                        self.add_elem(st, b, el)
                if self.precise and seq is None:
                    st.heap.pop((b, '#seq'), None)
            return [(st, NONE)]
        if name == 'update':
            for a in args:
                k = self.kind(st, b)
                if k == 'set':
                    c = self.content(st, a)
                    if c != ('u', 'empty'):
                        self.add_elem(st, b, c)
                else:
                    self.dict_update(st, b, a)
            for k, v in kw.items():
                self.dict_set(st, b, C(k), v)
            return [(st, NONE)]
        if name == 'setdefault':
            k = args[0]
            d = args[1] if len(args) > 1 else NONE
            cur = st.heap.get((b, '[k]', k))
            if self.precise and is_const(k) and self.tracked(st, b):
                if cur is None:
                    self.dict_set(st, b, k, d)
                return [(st, d if cur is None else cur)]
            if cur is None:
                cur = ('i', b, k) if b[0] != 'n' or st.heap.get((b, '{}')) is not None else None
            v = d if cur is None else phi([cur, d])
            self.dict_set(st, b, k, v, weak=True)
            return [(st, v)]
        if self.precise and name in ('pop', '__delitem__') and args and is_const(args[0]) and self.tracked(st, b):
            k = args[0]
            if (b, '[k]', k) not in st.heap:
                if len(args) > 1:
                    return [(st, args[1])]
                self.exc[-1].append((st, x('exc:KeyError', C(getattr(node, 'lineno', 0)))))
                return []
            v = st.heap.pop((b, '[k]', k))
            rest = [m for m in members(st.heap[(b, '{k}')]) if m != k]
            if rest:
                st.heap[(b, '{k}')] = phi(rest)
            else:
                st.heap.pop((b, '{k}'))
                st.heap.pop((b, '{}'), None)
                st.heap[(b, '#empty')] = TRUE
            return [(st, v if name == 'pop' else NONE)]
        if name in ('remove', 'discard', 'clear', 'pop', 'popitem', 'popleft'):
            if b[0] == 'n':
                seq = self.exact(st, b)
                st.heap.pop((b, '#seq'), None)
                st.heap.pop((b, '#nonempty'), None)
                if name == 'clear':
                    st.heap.pop((b, '[]'), None)
            if name in ('pop', 'popleft', 'popitem'):
                if args and (b, '[k]', args[0]) in st.heap:
                    return [(st, st.heap.pop((b, '[k]', args[0])))]
                if b[0] == 'n' and b[1] == 'list':
                    return [(st, st.heap.get((b, '[]'), TOP))]
                if args:
                    vs = [('i', b, args[0])] + ([args[1]] if len(args) > 1 else [])
                    return [(st, phi(vs))]
                return [(st, ('e', b))]
            return [(st, NONE)]
        if name == '__setitem__' and len(args) == 2:
            self.dict_set(st, b, args[0], args[1], weak=self.loop_depth > 0 and b[0] == 'n')
            return [(st, NONE)]
        if (self.seqs or name in ('sort', 'reverse')) and b[0] == 'n':
            st.heap.pop((b, '#seq'), None)
        return [(st, NONE)]

    def seq_edit(self, st, b, name, args, kw, node):
        """An edit of a list with known elements; False if its effect is not known."""
        seq = st.heap.get((b, '#seq'))
        if seq is None or self.loop_depth:
            return False
        els = list(seq[1:])
        res = NONE
        if name == 'insert' and len(args) == 2 and is_const(args[0]) and isinstance(cval(args[0]), int):
            els.insert(cval(args[0]), args[1])
        elif name == 'remove' and len(args) == 1:
            hits = [i for i, e in enumerate(els) if self.truth(st, self.eq(e, args[0])) is not False and e != args[0] and not (
                is_const(e) and is_const(args[0]))]
            if args[0] in els and not [i for i in hits if i < els.index(args[0])]:
                els.remove(args[0])
            elif not hits:
                self.exc[-1].append((st, x('exc:ValueError', C(getattr(node, 'lineno', 0)))))
                res = None
            else:
                return False
        elif name == 'pop' and len(args) <= 1 and all(is_const(a) and isinstance(cval(a), int) for a in args):
            try:
                res = els.pop(*[cval(a) for a in args])
            except IndexError:
                self.exc[-1].append((st, x('exc:IndexError', C(getattr(node, 'lineno', 0)))))
                res = None
        elif name in ('__setitem__', '__delitem__') and args:
            i = cval(args[0]) if is_const(args[0]) else None
            if not isinstance(i, int) or not -len(els) <= i < len(els):
                st.heap.pop((b, '#seq'), None)
                return False
            if name == '__setitem__':
                els[i] = args[1]
            else:
                del els[i]
        elif name == 'clear':
            els = []
        elif name == 'reverse':
            els.reverse()
        elif name == 'sort':
            els = self.seq_sorted(st, els, kw, node)
            if els is None:
                return False
        else:
            return False
        st.heap.pop((b, '[]'), None)
        self.set_seq(st, b, els)
        if not els:
            st.heap.pop((b, '#nonempty'), None)
        self.seq_result = res
        return True

    def seq_sorted(self, st, els, kw, node):
        """Known elements in the order of their constant keys, or None."""
        keys = []
        for el in els:
            k = el
            if kw.get('key', NONE) != NONE:
                rs = self.call_value(st.copy(), kw['key'], [el], {}, None, None, node)
                if len(rs) != 1:
                    return None
                k = rs[0][1]
            if k[0] == 't' and all(is_const(w) for w in k[1:]):
                k = tuple(cval(w) for w in k[1:])
            elif is_const(k):
                k = cval(k)
            else:
                return None
            keys.append(k)
        rev = kw.get('reverse', FALSE)
        if not is_const(rev):
            return None
        try:
            order = sorted(range(len(els)), key=lambda i: keys[i], reverse=bool(cval(rev)))
        except TypeError:
            return None
        return [els[i] for i in order]

    def add_elem(self, st, b, el, front=False):
        seq = st.heap.get((b, '#seq')) if b[0] == 'n' else None
        if b[0] == 'n':
            st.heap[(b, '#nonempty')] = TRUE
        if seq is not None and self.loop_depth == 0:
            st.heap[(b, '#seq')] = ('t',) + ((el,) + seq[1:] if front else seq[1:] + (el,))
        else:
            st.heap.pop((b, '#seq'), None)
        st.heap.pop((b, '#empty'), None)
        o = st.heap.get((b, '[]'))
        if o is None and b[0] != 'n':
            o = ('e', b)
        st.heap[(b, '[]')] = el if o is None else phi([o, el])

    def call_value(self, st, fv, args, kw, star, dstar, node):
        t = fv[0]
        if t == 'phi':
            out = []
            for m in members(fv):
                if m == NONE:
                    continue
                out += self.call_value(st.copy(), m, args, kw, star, dstar, node)
            return out or [(st, TOP)]
        if t == 'F':
            return self.call_func(st, self.prog.funcs[fv[1]], None, args, kw, star, dstar, node)
        if t == 'b':
            return self.call_func(st, self.prog.funcs[fv[1]], fv[2], args, kw, star, dstar, node)
        if t == 'C':
            return self.instantiate(st, fv[1], args, kw, star, dstar, node)
        if t == 'L':
            f = self.clo_funcs[fv]
            return self.call_func(st, f, None, args, kw, star, dstar, node, clo=fv)
        if t == 'g':
            return self.call_external(st, fv[1], args, kw, star, dstar, node)
        if t == 'm':
            return self.ext_method(st, fv[1], fv[2], args, kw, star, dstar, node)
        ty = self.typeof(st, fv)
        if isinstance(ty, tuple) and ty[0] == 'class':
            return self.instantiate(st, ty[1], args, kw, star, dstar, node, via=fv)
        if t == 'x' and fv[1] == 'type':
            c = self.cls(st, fv[2][0])
            if c is not None:
                return self.instantiate(st, c.name, args, kw, star, dstar, node)
        self.emit(st, 'XCALL', node, '?', fv, tuple(args), tuple(sorted(kw.items())))
        return [(st, x('?call', fv, *args))]

    def instantiate(self, st, cname, args, kw, star, dstar, node, via=None):
        c = self.prog.classes[cname]
        n = self.new(cname, node)
        st = st.copy()
        self.kill(st, n)
        for k in [k for k in st.conds if n in (k,) or (k[0] == 'a' and k[1] == n)]:
            del st.conds[k]
        self.emit(st, 'NEW', node, n, cname, tuple(args), tuple(sorted(kw.items())), via or ('C', cname))
        init = c.find('__init__')
        if cname in self.opaque:
            bound = self.bind(st, init, n, args, kw, star, dstar, node) if init is not None else {}
            for p, v in bound.items():
                st.heap[(n, '#arg:' + p)] = v
            return [(st, n)]
        if self.is_exception_class(c):
            st.heap[(n, 'args')] = ('t',) + tuple(args)
            return [(st, n)]
        if init is None:
            return [(st, n)]
        out = []
        for s, _ in self.call_func(st, init, n, args, kw, star, dstar, node, force=True):
            out.append((s, n))
        return out

    def is_exception_class(self, c):
        return any(isinstance(k, str) and k.split('.')[-1] in ('Exception', 'BaseException') or
                   isinstance(k, str) and isinstance(getattr(builtins, k, None), type) and
                   issubclass(getattr(builtins, k), BaseException) for k in c.mro() if isinstance(k, str))

    def default_expr(self, f, pname):
        a = f.node.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if p.arg == pname:
                return d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg == pname:
                return d
        return None

    def default_value(self, f, pname, d):
        v = self.const_expr(f.module, d)
        if v is not None:
            if v[0] == 'G':
                return v
            return v
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
            return ('G', f.module.name, f.qual + '#' + pname)
        return ('u', 'default', f.qual, pname)

    def bind(self, st, f, selfv, args, kw, star, dstar, node):
        a = f.node.args
        env = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals = list(args)
        if selfv is not None:
            vals = [selfv] + vals
        for p, v in zip(pos, vals):
            env[p] = v
        extra = vals[len(pos):]
        kw = dict(kw)
        known = set(pos) | {p.arg for p in a.kwonlyargs}
        bad = [k for k in kw if k not in known]
        if (extra and a.vararg is None) or (bad and a.kwarg is None) or any(p in env for p in kw):
            self.emit(st, 'ARITY', node, f.qual, len(vals), tuple(sorted(kw)))
        for k in list(kw):
            if k in known:
                env[k] = kw.pop(k)
        for p in pos[len(vals):]:
            if p in env:
                continue
            d = self.default_expr(f, p)
            if star is not None and p not in env:
                env[p] = ('e', star) if d is None else phi([('e', star), self.default_value(f, p, d)])
                continue
            if dstar is not None:
                env[p] = ('i', dstar, C(p)) if d is None else phi([('i', dstar, C(p)), self.default_value(f, p, d)])
                continue
            if d is None:
                self.emit(st, 'ARITY', node, f.qual, len(vals), tuple(sorted(kw)))
                env[p] = TOP
            else:
                env[p] = self.default_value(f, p, d)
        for p in a.kwonlyargs:
            if p.arg not in env:
                d = self.default_expr(f, p.arg)
                env[p.arg] = self.default_value(f, p.arg, d) if d is not None else TOP
        if a.vararg:
            if star is not None:
                n = ('n', 'tuple', self.site(node, 'vararg'))
                st.heap[(n, '[]')] = phi(extra + [('e', star)])
                env[a.vararg.arg] = n
            else:
                env[a.vararg.arg] = ('t',) + tuple(extra)
        if a.kwarg:
            n = ('n', 'dict', self.site(node, 'kwarg'))
            self.kill(st, n)
            if not kw and dstar is None:
                st.heap[(n, '#empty')] = TRUE
            for k, v in kw.items():
                self.dict_set(st, n, C(k), v)
            if dstar is not None:
                self.dict_update(st, n, dstar)
            env[a.kwarg.arg] = n
        return env

    def depth_of(self, f):
        return sum(1 for g, _ in self.stack if g is f)

    def is_atom(self, f, selfv):
        q = f.qual
        if q in self.atoms:
            if self.atom_filter is not None and not self.atom_filter(f, self):
                return False
            return True
        return False

    def call_func(self, st, f, selfv, args, kw, star, dstar, node, clo=None, force=False):
        self.n_calls += 1
        st = st.copy()
        env = self.bind(st, f, selfv, args, kw, star, dstar, node)
        order = f.params + [p.arg for p in f.node.args.kwonlyargs]
        if f.node.args.vararg:
            order = order + [f.node.args.vararg.arg]
        if f.node.args.kwarg:
            order = order + [f.node.args.kwarg.arg]
        bound = tuple((p, env[p]) for p in order if p in env)
        self.emit(st, 'CALL', node, f.qual, bound, f)
        if clo is not None:
            cap = st.clos.get(clo, {})
            full = dict(cap)
            if f.outer is (self.stack[-1][0] if self.stack else None):
                full.update(st.env)
            if not isinstance(f.node, ast.Lambda):
                full.setdefault(f.name, clo)
            full.update(env)
            env = full
        if not force and clo is None and self.is_atom(f, selfv):
            vals = [env[p] for p in order if p in env and not (f.node.args.kwarg and p == f.node.args.kwarg.arg
                                                               and st.heap.get((env[p], '#empty')))]
            self.emit(st, 'ATOM', node, f.qual, bound)
            if callable(self.atoms[f.qual]):
                return [(st, self.atoms[f.qual](st, dict(bound), self))]
            return [(st, x(f.qual, *vals))]
        if self.depth_of(f) > self.max_rec or len(self.stack) > self.max_depth:
            self.emit(st, 'RECURSION', node, f.qual, bound)
            if f.is_generator:
                v = x('rec:' + f.qual, *[env[p] for p in order if p in env])
                return [(st, v)]
            return [(st, x('rec:' + f.qual, *[env[p] for p in order if p in env]))]
        if f.is_generator:
            n = self.new('gen', node, f.qual)
            # the generator is told apart by what it was called with
            n = ('n', 'gen', n[2] + (tuple((p, v) for p, v in bound),)) if size(('t',) + tuple(
                v for _, v in bound)) < 120 else n
            if self.assert_depth:
                self.assert_new.add(n)
            st.heap[(n, '#gen')] = ('gen', clo if clo is not None else self.fkey(f))
            st.clos[n] = env
            return [(st, n)]
        saved = st.env
        caller = self.stack[-1][0] if self.stack else None
        st.env = env
        outs = self.run_body(st, f, node)
        rets, raises = [], []
        for s, k, v in outs:
            cenv = s.env
            s = s.copy()
            s.env = dict(saved)
            if clo is not None and f.outer is caller:
                for nm in self.nonlocals(f):
                    if nm in cenv:
                        s.env[nm] = cenv[nm]
            if k == 'raise':
                raises.append((s, v))
            else:
                rets.append((s, v))
        if self.exc:
            self.exc[-1] += self.group_raises(raises)
        if self.merge_calls and len(rets) > 1:
            groups = {}
            for s, v in rets:
                groups.setdefault((v, s.events), []).append(s)
            rets = [(self.merge(g), v) for (v, _), g in groups.items()]
        return rets

    def group_raises(self, raises):
        """One state per exception and sequence of tracked events."""
        if not self.merge_calls or len(raises) < 2:
            return raises
        groups = {}
        for s, v in raises:
            groups.setdefault((v, s.events), []).append(s)
        return [(self.merge(g), v) for (v, _), g in groups.items()]

    def nonlocals(self, f):
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Nonlocal):
                out.update(n.names)
        return out

    def run_body(self, st, f, node):
        """Interpret the body of f in the environment of st: [(state, 'return'|'raise', value)]"""
        self.analysed.add(f.module.name + ':' + f.qual)
        self.stack.append((f, self.where(node)))
        saved_loop, self.loop_depth = self.loop_depth, self.loop_depth
        try:
            if isinstance(f.node, ast.Lambda):
                self.exc.append([])
                res = [(s, 'return', v) for s, v in self.eval(st, f.node.body)]
                res += [(s, 'raise', v) for s, v in self.exc.pop()]
                return res
            outs = self.block([st], f.node.body)
        finally:
            self.stack.pop()
            self.loop_depth = saved_loop
        res = []
        for s, k, v in outs:
            if k == 'next':
                res.append((s, 'return', NONE))
            elif k in ('return', 'raise'):
                res.append((s, k, v))
        self.n_paths += len(res)
        return res

    # ------------------------------------------------------------------ external calls

    def call_external(self, st, name, args, kw, star, dstar, node):
        base = name.split('.')[-1]
        n_args = len(args)
        ex = tuple(args) + ((('kw', '*', star),) if star is not None else ())
        kwt = tuple(sorted(kw.items())) + ((('**', dstar),) if dstar is not None else ())
        if name == 'isinstance' and n_args == 2:
            a, tv = args
            if a[0] == 'phi':
                rs = {self.isinstance(st, m, tv) for m in members(a)}
                if len(rs) == 1 and None not in rs:
                    return [(st, C(rs.pop()))]
            r = self.isinstance(st, a, tv)
            if r is not None:
                return [(st, C(r))]
            return [(st, op('isinstance', a, tv))]
        self.emit(st, 'XCALL', node, name, None, ex, kwt)
        if name in ('sys.exit', 'exit', 'quit', 'os._exit', 'os.abort'):
            v = self.new('SystemExit', node)
            self.emit(st, 'EXIT', node, name)
            if self.exc:
                self.exc[-1].append((st, v))
            return []
        if self.ext_hook is not None:
            r = self.ext_hook(name, args, kw, st, self)
            if r is not None:
                return [(st, r)]
        if name == 'int' and n_args == 1 and is_const(args[0]) and isinstance(cval(args[0]), str):
            try:
                return [(st, C(int(cval(args[0]))))]
            except ValueError:
                if self.exc:
                    self.exc[-1].append((st, x('exc:ValueError', C(getattr(node, 'lineno', 0)))))
                    return []
        if name in ('str', 'repr') and n_args == 1:
            a = args[0]
            if is_const(a) and name == 'str':
                return [(st, C(str(cval(a))))]
            c = self.cls(st, a)
            if c is not None:
                f = c.find('__str__') if name == 'str' else c.find('__repr__')
                if f is not None and self.depth_of(f) == 0:
                    return self.call_func(st, f, a, [], {}, None, None, node)
            if self.typeof(st, a) == 'str' and name == 'str':
                return [(st, a)]
            return [(st, op('str', a))]
        if name in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'collections.OrderedDict', 'dict',
                    'collections.deque', 'collections.defaultdict', 'collections.Counter'):
            return self.make_container(st, base, args, kw, dstar, node)
        if name in ('enumerate',):
            start = args[1] if n_args > 1 else kw.get('start', C(0))
            return [(st, x('enumerate', args[0], start))]
        if name in ('zip', 'reversed', 'iter', 'filter', 'range'):
            if name == 'iter' and n_args == 1:
                return [(st, args[0] if args[0][0] in ('n', 'L') and args[0][1] == 'gen' else x('iter', args[0]))]
            return [(st, x(name, *args))]
        if name == 'map' and n_args == 2:
            return [(st, x('map', *args))]
        if name in ('itertools.chain', 'itertools.chain.from_iterable'):
            if star is not None or name.endswith('from_iterable'):
                src = star if star is not None else args[0]
                # elements of the elements
                els = []
                sres = st
                for s, mode, es in self.iterate(st, src, node):
                    sres = s
                    for el in es:
                        for s2, m2, e2 in self.iterate(sres, el, node):
                            sres = s2
                            els += e2
                n = self.new('list', node)
                sres = sres.copy()
                self.kill(sres, n)
                if els:
                    sres.heap[(n, '[]')] = phi(els)
                return [(sres, n)]
            return [(st, x('itertools.chain', *args))]
        if name == 'itertools.groupby':
            return [(st, x(name, *args))]
        if self.seqs and name in ('any', 'all') and n_args == 1:
            out = []
            for s, mode, els in self.iterate(st, args[0], node):
                ts = [self.truth(s, el) for el in els] if mode == 'exact' else [None]
                if None in ts:
                    out = None
                    break
                out.append((s, C(any(ts) if name == 'any' else all(ts))))
            if out is not None:
                return out
        if self.seqs and name == 'len' and n_args == 1:
            if is_const(args[0]) and isinstance(cval(args[0]), str):
                return [(st, C(len(cval(args[0]))))]
            seq = self.exact(st, args[0])
            if seq is not None and not (args[0][0] == 'n' and args[0][1] == 'set'):
                return [(st, C(len(seq)))]
        if self.seqs and name in ('bisect.insort', 'bisect.insort_left', 'bisect.insort_right', 'heapq.heappush', 'heapq.heapify',
                                  'random.shuffle', 'heapq.heappop'):
            for a in args:
                if a[0] == 'n':
                    st = st.copy()
                    st.heap.pop((a, '#seq'), None)
        if name in ('any', 'all', 'sum', 'min', 'max') and args:
            a = args[0]
            vals, s2 = [], st
            if n_args == 1 and name in ('any', 'all') and self.comp_paths and a[0] == 'L':
                out = []
                for s, mode, els in self.iterate(st, a, node):
                    if not els and mode == 'exact':
                        out.append((s, C(name == 'all')))
                    elif all(v[0] != 'phi' for v in els) and len(els) <= 6:
                        out.append((s, x(name, *els)))
                    else:
                        out.append((s, x(name, phi(els))))
                if out:
                    return out
            if n_args == 1:
                for s, mode, els in self.iterate(st, a, node)[:1] or [(st, 'alt', [])]:
                    vals, s2 = els, s
            if name in ('any', 'all') and vals and all(v[0] != 'phi' for v in vals) and len(vals) <= 6:
                return [(s2, x(name, *vals))]
            return [(s2, x(name, *(args if n_args > 1 else [phi(vals) if vals else a])))]
        if name == 'next' and args:
            self.emit(st, 'NEXT', node, args[0])
            res = self.iterate(st, args[0], node)
            out = []
            for s, mode, els in res:
                if mode in ('exact', 'one') and els:
                    out.append((s, els[0]))
                else:
                    out.append((s, phi(els + ([args[1]] if n_args > 1 else [])) if els or n_args > 1 else TOP))
            return out or [(st, TOP)]
        if name == 'getattr' and n_args >= 2:
            if is_const(args[1]):
                if n_args > 2:
                    r = self.getattr_default(st, args[0], cval(args[1]), args[2], node)
                    if r is not None:
                        return r
                self.soft = n_args > 2
                try:
                    res = self.load_attr(st, args[0], cval(args[1]), node) if args[0] != NONE else []
                finally:
                    self.soft = False
                if n_args > 2:
                    self.emit(st, 'GETATTR', node, args[0], args[1])
                    c = self.cls(st, args[0])
                    return [(s, phi([v, args[2]]) if c is None else v) for s, v in res] or [(st, args[2])]
                return res or [(st, TOP)]
            self.emit(st, 'GETATTR', node, args[0], args[1])
            v = x('getattr', *args[:2])
            return [(st, phi([v, args[2]]) if n_args > 2 else v)]
        if name in ('setattr', 'object.__setattr__') and n_args == 3:
            if is_const(args[1]):
                return [(s, NONE) for s in self.store_attr(st, args[0], cval(args[1]), args[2], node,
                                                            direct=(name == 'object.__setattr__'))]
            st = st.copy()
            self.emit(st, 'STORE', node, args[0], args[1], args[2])
            return [(st, NONE)]
        if name in ('delattr',) and n_args == 2:
            self.emit(st, 'DELATTR', node, args[0], args[1])
            return [(st, NONE)]
        if name == 'hasattr' and n_args == 2:
            if is_const(args[1]) and isinstance(cval(args[1]), str):
                b = args[0]
                if (b, cval(args[1])) in st.heap:
                    return [(st, TRUE)]
                if b[0] == 'x' and b[1] == 'type' and self.cls(st, b[2][0]) is not None:
                    b = ('C', self.cls(st, b[2][0]).name)
                c = self.prog.classes.get(b[1]) if b[0] == 'C' else self.cls(st, b)
                if c is not None:
                    if c.find(cval(args[1])) is not None or c.find_attr(cval(args[1])) is not None or \
                            hasattr(object, cval(args[1])):
                        return [(st, TRUE)]
                    if b[0] == 'C' and all(k in ('object',) for k in c.external_bases()):
                        return [(st, FALSE)]
            return [(st, x('hasattr', *args))]
        if name == 'vars' and n_args == 1:
            return [(st, ('a', args[0], '__dict__'))]
        if name == 'len' and n_args == 1:
            seq = self.exact(st, args[0])
            if seq is not None and self.loop_depth == 0:
                return [(st, C(len(seq)))]
            return [(st, x('len', args[0]))]
        if name == 'type' and n_args == 1:
            return [(st, x('type', args[0]))]
        if name == 'bool' and n_args == 1:
            t = self.truth(st, args[0])
            return [(st, C(t) if t is not None else op('not', op('not', args[0])))]
        if name in ('copy.copy',) and n_args == 1:
            k = self.kind(st, args[0])
            return self.copy_container(st, args[0], node, k or 'copy')
        if name in ('copy.deepcopy',):
            n = self.new('copy', node)
            return [(st, n)]
        if name in ('id', 'hash'):
            return [(st, x(name, *args))]
        if name == 'functools.partial' and args:
            return [(st, x('partial', *args))]
        if name in ('operator.attrgetter', 'operator.itemgetter'):
            return [(st, x(name, *args))]
        if name == 'open' or name in ('io.open', 'codecs.open'):
            return [(st, x('open', *(list(args) + [('kw', k, v) for k, v in sorted(kw.items())])))]
        if self.exc_name(name):
            n = self.new(base, node)
            return [(st, n)]
        impure = name.split('.')[0] in ('random', 'time', 'uuid', 'secrets', 'datetime') or name in ('input', 'time.time')
        v = x(name, *(list(args) + ([('kw', '*', star)] if star is not None else []) +
                      [('kw', k, v) for k, v in sorted(kw.items())]))
        if impure:
            v = x(name, C(str(self.site(node)[:3])), *args)
        return [(st, v)]

    def getattr_default(self, st, b, attr, default, node):
        """getattr with a default on a class, a property or a constant, where existence can be decided."""
        if b[0] == 'x' and b[1] == 'type' and self.cls(st, b[2][0]) is not None:
            b = ('C', self.cls(st, b[2][0]).name)
        if b[0] == 'C':
            c = self.prog.classes[b[1]]
            if c.find(attr) is not None or c.find_attr(attr) is not None:
                return self.load_attr(st, b, attr, node)
            if all(k in ('object',) for k in c.external_bases()) and not hasattr(object, attr):
                return [(st, default)]
            return None
        if b[0] == 'x' and b[1] == 'property':
            if attr in ('fset', 'fget'):
                return self.load_attr(st, b, attr, node)
            return [(st, default)] if attr not in ('fdel', '__doc__') else None
        if b == NONE or b[0] == 'F' or b[0] == 'c':
            if attr in ('fset', 'fget', 'fdel'):
                return [(st, default)]
        if b[0] == 'a' and b[1][0] == 'C' and attr in ('fset', 'fget', 'fdel'):
            return [(st, default)]
        return None

    def exc_name(self, name):
        b = name.split('.')[-1]
        if b in EXT_EXC:
            return True
        o = getattr(builtins, b, None)
        return isinstance(o, type) and issubclass(o, BaseException)

    def make_container(self, st, base, args, kw, dstar, node):
        kind = {'sorted': 'list', 'OrderedDict': 'dict', 'frozenset': 'set', 'defaultdict': 'dict',
                'Counter': 'dict'}.get(base, base)
        if not args:
            st = st.copy()
            n = self.new(kind, node)
            self.kill(st, n)
            if kind == 'dict':
                if not kw and dstar is None:
                    st.heap[(n, '#empty')] = TRUE
                for k, v in kw.items():
                    self.dict_set(st, n, C(k), v)
                if dstar is not None:
                    self.dict_update(st, n, dstar)
            elif kind == 'tuple':
                return [(st, ('t',))]
            else:
                self.set_seq(st, n, [])
            return [(st, n)]
        a = args[0]
        if base == 'defaultdict':
            st = st.copy()
            n = self.new('dict', node)
            self.kill(st, n)
            return [(st, n)]
        out = []
        if kind == 'dict':
            k = self.kind(st, a)
            if k == 'dict' or (a[0] not in ('n', 'L', 't') and not (a[0] == 'x' and a[1] in (
                    'zip', 'items', 'enumerate', 'map', 'filter'))):
                st = st.copy()
                n = self.new('dict', node)
                self.kill(st, n)
                self.dict_update(st, n, a)
                for kk, v in kw.items():
                    self.dict_set(st, n, C(kk), v)
                return [(st, n)]
            for s, mode, els in self.iterate(st, a, node):
                s = s.copy()
                n = self.new('dict', node)
                self.kill(s, n)
                strong = self.precise and mode == 'exact'
                if strong:
                    s.heap[(n, '#empty')] = TRUE
                if self.seqs and mode != 'exact':
                    s.heap[(('u', 'path'), 'fuzzy')] = TRUE
                for el in els:
                    if el[0] == 't' and len(el) == 3:
                        self.dict_set(s, n, el[1], el[2], weak=not strong)
                    else:
                        s.heap[(n, '{}')] = TOP
                        s.heap.pop((n, '#empty'), None)
                out.append((s, n))
            return out
        if base == 'sorted':
            self.emit(st, 'SORTED', node, a)
        for s, mode, els in self.iterate(st, a, node):
            s = s.copy()
            n = self.new(kind, node)
            self.kill(s, n)
            known = self.seq_sorted(s, els, kw, node) if self.seqs and mode == 'exact' and base == 'sorted' else None
            if known is not None:
                self.set_seq(s, n, known)
            elif mode == 'exact' and base == 'sorted' and not kw and els and all(
                    is_const(el) and isinstance(cval(el), str) for el in els):
                self.set_seq(s, n, [C(c) for c in sorted(cval(el) for el in els)])
            elif mode == 'exact' and base in ('list', 'tuple'):
                if base == 'tuple':
                    out.append((s, ('t',) + tuple(els)))
                    continue
                self.set_seq(s, n, els)
            elif els:
                s.heap[(n, '[]')] = phi(els)
            elif mode == 'exact':
                self.set_seq(s, n, [])
            if base == 'sorted' and kw.get('key') is not None:
                for el in els[:1]:
                    self.call_value(s, kw['key'], [el], {}, None, None, node)
            if base in ('list', 'sorted', 'tuple', 'set'):
                s.heap[(n, '#from')] = a
            if base == 'sorted':
                s.heap[(n, '#sorted')] = True
            out.append((s, n))
        return out

    # ------------------------------------------------------------------ stores

    def assign(self, st, target, v):
        """[states]"""
        if isinstance(target, ast.Name):
            st = st.copy()
            st.env[target.id] = v
            self.emit(st, 'BIND', target, target.id, v)
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            elts = target.elts
            if self.seqs and not any(isinstance(t, ast.Starred) for t in elts):
                seq = self.exact(st, v)
                if seq is None and is_const(v):
                    seq = [C(c) for c in cval(v)] if isinstance(cval(v), str) else ()
                if seq is not None and len(seq) != len(elts):
                    e = 'TypeError' if is_const(v) and not isinstance(cval(v), str) else 'ValueError'
                    self.exc[-1].append((st, x('exc:' + e, C(getattr(target, 'lineno', 0)))))
                    return []
                if seq is not None and is_const(v):
                    v = ('t',) + tuple(seq)
            states = [st]
            for i, tnode in enumerate(elts):
                nxt = []
                for s in states:
                    if isinstance(tnode, ast.Starred):
                        rest = op('slice', v, C(i), NONE, NONE)
                        nxt += self.assign(s, tnode.value, rest)
                        continue
                    nxt += self.assign(s, tnode, self.component(s, v, i, len(elts), tnode))
                states = nxt
            return states
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.eval(st, target.value):
                out += self.store_attr(s, b, target.attr, v, target)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, b in self.eval(st, target.value):
                if isinstance(target.slice, ast.Slice):
                    s = s.copy()
                    self.emit(s, 'MUT', target, b, '__setslice__', (), (v,))
                    full = target.slice.lower is None and target.slice.upper is None and target.slice.step is None
                    if self.seqs and b[0] == 'n' and full and (b, '#seq') in s.heap and self.exact(s, v) is not None \
                            and self.loop_depth == 0:
                        s.heap.pop((b, '[]'), None)
                        self.set_seq(s, b, self.exact(s, v))
                    elif b[0] == 'n':
                        s.heap.pop((b, '#seq'), None)
                        s.heap[(b, '[]')] = phi([s.heap.get((b, '[]'), TOP), self.content(s, v)])
                    out.append(s)
                    continue
                for s2, k in self.eval(s, target.slice):
                    out += self.store_item(s2, b, k, v, target)
            return out
        return [st]

    def component(self, st, v, i, n, node):
        if v[0] == 'phi':
            return phi([self.component(st, m, i, n, node) for m in members(v)])
        seq = self.exact(st, v)
        if seq is not None:
            return seq[i] if i < len(seq) else TOP
        if v[0] == 'L':
            f = self.clo_funcs.get(v)
            if f is not None and f.name == '<genexp>':
                return self.content_iter(st, v, node)
        if (v, '[k]', C(i)) in st.heap:
            return st.heap[(v, '[k]', C(i))]
        if v[0] == 'n' and (v, '[]') in st.heap:
            return st.heap[(v, '[]')]
        return ('i', v, C(i))

    def store_item(self, st, b, k, v, node):
        if b[0] == 'phi':
            st = st.copy()
            for m in members(b):
                if m != NONE:
                    self.emit(st, 'MUT', node, m, '__setitem__', (), (k, v))
            return [st]
        c = self.cls(st, b)
        if c is not None:
            f = c.find('__setitem__')
            if f is not None:
                return [s for s, _ in self.call_func(st, f, b, [k, v], {}, None, None, node)]
        self.emit(st, 'DEREF', node, b, '[]=')
        return [s for s, _ in self.mutate(st, b, '__setitem__', [k, v], {}, None, node)]

    def store_attr(self, st, b, attr, v, node, direct=False):
        if b[0] == 'phi':
            outs = [st]
            for m in members(b):
                if m == NONE:
                    self.emit(outs[0], 'DEREF', node, m, attr + '=')
                    continue
                nxt = []
                for s in outs:
                    nxt += self.store_attr(s, m, attr, v, node)
                outs = nxt or outs
            return outs
        self.emit(st, 'DEREF', node, b, attr + '=')
        c = self.cls(st, b)
        if c is not None:
            f = c.find_setter(attr)
            if f is not None:
                return [s for s, _ in self.call_func(st, f, b, [v], {}, None, None, node)]
        elif b[0] in ('lv', 'e', 'p', 'i', 'x', 'u') and attr in ('section',) and self.typeof(st, b) is None:
            f = self.prog.classes['Term'].find_setter(attr) if 'Term' in self.prog.classes else None
            if f is not None:
                return [s for s, _ in self.call_func(st, f, b, [v], {}, None, None, node)]
        st = st.copy()
        self.emit(st, 'STORE', node, b, attr, v)
        st.heap[(b, attr)] = v
        # facts about the old content are gone
        old = ('a', b, attr)
        return [st]

    # ------------------------------------------------------------------ statements

    def block(self, states, stmts):
        """[(state, kind, value)]"""
        out = []
        live = list(states)
        for s in stmts:
            nxt = []
            for st in live:
                for s2, k, v in self.stmt(st, s):
                    if k == 'next':
                        nxt.append(s2)
                    else:
                        out.append((s2, k, v))
            live = self.limit(nxt)
            if not live:
                break
        out += [(s, 'next', None) for s in live]
        return out

    def stmt(self, st, s):
        self.exc.append([])
        try:
            m = getattr(self, 'st_' + type(s).__name__, None)
            if m is None:
                outs = [(st, 'next', None)]
            else:
                outs = m(st, s)
        finally:
            raised = self.exc.pop()
        outs = list(outs) + [(s2, 'raise', v) for s2, v in (
            self.group_raises(raised) if len(raised) > 4 else raised)]
        return outs

    def st_Expr(self, st, s):
        if isinstance(s.value, ast.Constant):
            return [(st, 'next', None)]
        res = [s2 for s2, v in self.eval(st, s.value)]
        return [(s2, 'next', None) for s2 in res]

    def st_Pass(self, st, s):
        return [(st, 'next', None)]

    def st_Assign(self, st, s):
        out = []
        for s2, v in self.eval(st, s.value):
            states = [s2]
            for t in s.targets:
                states = [s4 for s3 in states for s4 in self.assign(s3, t, v)]
            out += states
        return [(x_, 'next', None) for x_ in out]

    def st_AnnAssign(self, st, s):
        if s.value is None:
            return [(st, 'next', None)]
        out = []
        for s2, v in self.eval(st, s.value):
            out += self.assign(s2, s.target, v)
        return [(x_, 'next', None) for x_ in out]

    def st_AugAssign(self, st, s):
        load = ast.copy_location(_load_copy(s.target), s.target)
        out = []
        for s1, cur in self.eval(st, load):
            for s2, v in self.eval(s1, s.value):
                k = self.kind(s2, cur)
                if k in ('list', 'set', 'dict') and isinstance(s.op, (ast.Add, ast.BitOr, ast.Sub, ast.BitAnd)):
                    name = {'Add': 'extend', 'BitOr': 'update', 'Sub': 'difference_update',
                            'BitAnd': 'intersection_update'}[type(s.op).__name__]
                    for s3, _ in self.mutate(s2, cur, name, [v], {}, None, s):
                        out += self.assign(s3, s.target, cur)
                else:
                    s3, r = self.binop(s2, s.op, cur, v, s)
                    out += self.assign(s3, s.target, r)
        return [(x_, 'next', None) for x_ in out]

    def st_Return(self, st, s):
        loop = id(s) in self.loop_returns(self.stack[-1][0])
        if s.value is None:
            if loop:
                st = st.copy()
                self.emit(st, 'LOOPRETURN', s, NONE)
            return [(st, 'return', NONE)]
        out = []
        for s2, v in self.eval(st, s.value):
            if loop:
                s2 = s2.copy()
                self.emit(s2, 'LOOPRETURN', s, v)
            out.append((s2, 'return', v))
        return out

    def loop_returns(self, f):
        """Return statements inside a loop of the same function."""
        c = self._loop_returns.get(f)
        if c is None:
            c = set()

            def go(n, inside):
                for ch in ast.iter_child_nodes(n):
                    if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    if isinstance(ch, ast.Return) and inside:
                        c.add(id(ch))
                    go(ch, inside or isinstance(ch, ast.For))

            go(f.node, False)
            self._loop_returns[f] = c
        return c

    def st_If(self, st, s):
        out = []
        conds = self.eval_cond(st, s.test)
        for b, body in ((True, s.body), (False, s.orelse)):
            states = self.limit([s2 for s2, r in conds if r == b])
            if states:
                out += self.block(states, body) if body else [(x_, 'next', None) for x_ in states]
        return out

    def st_Assert(self, st, s):
        self.assert_depth += 1
        if self.assert_depth == 1:
            self.assert_node = s
        self.emit(st, 'ASSERT', s, 'begin')
        conds = self.eval_cond(st, s.test)
        if s.msg is not None:
            for s2, b in conds:
                if not b:
                    self.eval(s2, s.msg)
        self.assert_depth -= 1
        if self.seqs and conds and not any(b for _, b in conds):
            self.emit(st, 'ASSERT', s, 'end')
            return [(st, 'raise', self.new('AssertionError', s))]
        if not (self.trust_asserts(s) if callable(self.trust_asserts) else self.trust_asserts):
            # what an assertion requires does not hold when assertions are disabled
            self.emit(st, 'ASSERT', s, 'end')
            return [(st, 'next', None)]
        oks = [s2 for s2, b in conds if b]
        self.emit(st, 'ASSERT', s, 'end')
        if not oks:
            # a lookup that is repeated in an assertion may have another result after a change
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) for n in ast.walk(s.test)):
                return [(st, 'next', None)]
            return []
        return [(x_, 'next', None) for x_ in self.limit(oks)]

    def st_Raise(self, st, s):
        if s.exc is None:
            ev = st.env.get('#exc', ('u', 'exc'))
            self.emit(st, 'RAISE', s, self.exc_class(ev), ev)
            return [(st, 'raise', ev)]
        out = []
        for s2, v in self.eval(st, s.exc):
            if v[0] in ('C', 'g'):
                base = v[1].split('.')[-1]
                v = self.new(base, s)
            s2 = s2.copy()
            self.emit(s2, 'RAISE', s, self.exc_class(v), v)
            out.append((s2, 'raise', v))
        return out

    def exc_class(self, v):
        if v[0] == 'n':
            return v[1]
        if v[0] == 'exc':
            return v[1]
        if v[0] == 'phi':
            return '|'.join(sorted(str(self.exc_class(m)) for m in v[1]))
        if v[0] == 'x' and v[1].startswith('exc:'):
            return v[1][4:]
        return '?'

    def exc_sub(self, a, b):
        """Is exception class a (name) a subclass of b?  True/False/None"""
        if a == b or b in ('BaseException',):
            return True
        if a in ('?', None) or '|' in a:
            return None
        c = self.prog.classes.get(a)
        if c is not None and self.is_exception_class(c):
            for k in c.mro():
                n = k.name if isinstance(k, ClassInfo) else k.split('.')[-1]
                if n == b:
                    return True
            return b in ('Exception', 'BaseException')
        if a in EXT_EXC:
            return b in EXT_EXC[a] or b == 'BaseException'
        oa = getattr(builtins, a, None)
        ob = getattr(builtins, b, None)
        if isinstance(oa, type):
            if isinstance(ob, type):
                return issubclass(oa, ob)
            return False
        return None

    def handler_types(self, h):
        if h.type is None:
            return ['BaseException']
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for n in nodes:
            r = self.prog.resolve_expr(self.stack[-1][0].module, n)
            if r and r[0] == 'C':
                out.append(r[1])
            elif r and r[0] == 'g':
                name = r[1].split('.')[-1]
                if name in ('IOError', 'EnvironmentError'):
                    name = 'OSError'
                out.append(name)
            elif r and r[0] == 'G':
                v = self.global_ref(r)
                if v[0] == 't':
                    out += [m[1].split('.')[-1] for m in v[1:] if m[0] in ('C', 'g')]
                else:
                    out.append('?')
            else:
                nm = ast.unparse(n).split('.')[-1]
                out.append(nm)
        return out

    def st_Try(self, st, s):
        htypes = [self.handler_types(h) for h in s.handlers]
        flat = [t for ts in htypes for t in ts]
        self.tries.append(flat)
        called = set()
        self.try_calls.append(called)
        implicit = []
        outs = []
        live = [st]
        body_out = []
        try:
            for stm in s.body:
                nxt = []
                for s1 in live:
                    if self.implicit and s.handlers and _may_raise(stm):
                        implicit.append((s1, stm))
                    for s2, k, v in self.stmt(s1, stm):
                        if k == 'next':
                            nxt.append(s2)
                        else:
                            body_out.append((s2, k, v))
                live = self.limit(nxt)
        finally:
            self.tries.pop()
            self.try_calls.pop()
        # explicit raises
        entry = {i: [] for i in range(len(s.handlers))}
        for s2, k, v in body_out:
            if k != 'raise':
                outs.append((s2, k, v))
                continue
            cn = self.exc_class(v)
            caught = False
            for i, ts in enumerate(htypes):
                rs = [self.exc_sub(cn, t) for t in ts]
                if any(r is True for r in rs):
                    entry[i].append((s2, v, False, None))
                    caught = True
                    break
                if any(r is None for r in rs):
                    entry[i].append((s2, v, False, None))
            if not caught:
                outs.append((s2, k, v))
        for i, h in enumerate(s.handlers):
            for s2, stm in implicit:
                entry[i].append((s2, x('exc:' + '|'.join(htypes[i]), C(h.lineno)), True, stm))
        if s.orelse:
            outs += self.block(live, s.orelse)
        else:
            outs += [(x_, 'next', None) for x_ in live]
        for i, h in enumerate(s.handlers):
            seen = set()
            for s2, v, imp, stm in entry[i]:
                s3 = s2.copy()
                prev = s3.env.get('#exc')
                s3.env['#exc'] = v
                if h.name:
                    s3.env[h.name] = v
                self.emit(s3, 'HANDLER', h, tuple(htypes[i]), v, imp, s)
                key = (s3.events, frozenset(s3.heap.items()), tuple(sorted((a, b) for a, b in s3.env.items())),
                       frozenset(s3.conds.items()))
                if key in seen:
                    continue
                seen.add(key)
                for s4, k, val in self.block([s3], h.body):
                    if k != 'raise':
                        self.emit(s4, 'HSWALLOW', h, tuple(htypes[i]), frozenset(called), k, v, val)
                    if prev is None:
                        s4.env.pop('#exc', None)
                    else:
                        s4.env['#exc'] = prev
                    outs.append((s4, k, val))
        if s.finalbody:
            res = []
            for s2, k, v in outs:
                for s3, k3, v3 in self.block([s2], s.finalbody):
                    if k3 == 'next':
                        res.append((s3, k, v))
                    else:
                        if k == 'raise' or s.body:
                            self.emit(s3, 'HSWALLOW', s, ('BaseException',), frozenset(called), k3, ('u', 'finally'),
                                      v3)
                        res.append((s3, k3, v3))
            outs = res
        return outs

    st_TryStar = st_Try

    def st_With(self, st, s):
        live = [st]
        managers = []
        out = []
        suppress = []
        for it in s.items:
            nxt = []
            for s1 in live:
                for s2, v in self.eval(s1, it.context_expr):
                    s2 = s2.copy()
                    self.emit(s2, 'WITH', s, v)
                    if v[0] == 'x' and v[1] == 'contextlib.suppress':
                        suppress = [m[1].split('.')[-1] for m in v[2] if m[0] in ('C', 'g')]
                    s2.env['#with%d' % len(managers)] = v
                    if it.optional_vars is not None:
                        bv = v
                        c = self.cls(s2, v)
                        if c is not None and c.find('__enter__'):
                            for s3, bv in self.call_func(s2, c.find('__enter__'), v, [], {}, None, None, s):
                                nxt += self.assign(s3, it.optional_vars, bv)
                            continue
                        nxt += self.assign(s2, it.optional_vars, bv)
                    else:
                        nxt.append(s2)
            live = nxt
            managers.append(it)
        called = set()
        if suppress:
            self.tries.append(suppress)
            self.try_calls.append(called)
        for s2, k, v in self.block(live, s.body):
            s2 = s2.copy()
            for i in range(len(managers)):
                m = s2.env.pop('#with%d' % i, None)
                if m is not None:
                    self.emit(s2, 'WITHEXIT', s, m)
            if k == 'raise' and suppress and any(self.exc_sub(self.exc_class(v), t) is not False for t in suppress):
                self.emit(s2, 'HSWALLOW', s, tuple(suppress), frozenset(called), 'next', v, NONE)
                k, v = 'next', None
            out.append((s2, k, v))
        if suppress:
            self.tries.pop()
            self.try_calls.pop()
            for s1 in live:
                if self.seqs:
                    break
                s2 = s1.copy()
                self.emit(s2, 'HANDLER', s, tuple(suppress), x('exc:' + '|'.join(suppress), C(s.lineno)), True, s)
                self.emit(s2, 'HSWALLOW', s, tuple(suppress), frozenset(called), 'next', ('u', 'suppress'), NONE)
                out.append((s2, 'next', None))
        return out

    def st_For(self, st, s):
        out = []
        for s1, itv in self.eval(st, s.iter):
            for s2, mode, elems in self.iterate(s1, itv, s.iter):
                if self.seqs and mode != 'exact':
                    s2 = s2.copy()
                    s2.heap[(('u', 'path'), 'fuzzy')] = TRUE
                out += self.loop(s2, s, itv, mode, elems)
        # after the loop, keep one state per sequence of tracked events
        nxt = self.group([x_ for x_, k, v in out if k == 'next']) if sum(1 for o in out if o[1] == 'next') > 1 else \
            [x_ for x_, k, v in out if k == 'next']
        return [o for o in out if o[1] != 'next'] + [(x_, 'next', None) for x_ in nxt]

    def loop(self, st, s, itv, mode, elems):
        out = []
        if mode == 'exact':
            if self.havoc is not None and self.havoc(s, self, itv, elems):
                st = self.forget(st, s)
                self.emit(st, 'LOOPSTART', s, itv)
            live = [st]
            broke = []
            src = None
            if self.seqs:
                # the list itself is iterated over: edits in the loop move its elements
                if itv[0] == 'x' and itv[1] == 'iter' and len(itv[2]) == 1:
                    itv = itv[2][0]
                src = itv if itv[0] == 'n' and itv[1] == 'list' and (itv, '#seq') in st.heap else getattr(elems, 'src', None)
                if src is not None and self.gen_ids and self.gen_ids[-1][0] is not None:
                    st.heap[(self.gen_ids[-1][0], '#src')] = src
            done = []
            for nth in itertools.count():
                if src is None and nth >= len(elems) or not live or nth > 40:
                    break
                nxt = []
                self.unroll = self.unroll + (nth,) if self.iter_hook is not None else ()
                for s1 in live:
                    s1 = s1.copy()
                    if src is not None:
                        now = self.exact(s1, src)
                        if now is None:
                            s1.heap[(('u', 'path'), 'fuzzy')] = TRUE
                            now = elems
                        if nth >= len(now):
                            done.append(s1)
                            continue
                        el = now[nth]
                    else:
                        el = elems[nth]
                    for s2 in self.assign(s1, s.target, el):
                        for s3, k, v in self.block([s2], s.body):
                            if k in ('next', 'continue'):
                                nxt.append(s3)
                            elif k == 'break':
                                broke.append(s3)
                            else:
                                out.append((s3, k, v))
                live = self.group(nxt) if len(nxt) > 3 else nxt
                self.unroll = self.unroll[:-1]
            live = done + live
            if s.orelse:
                out += self.block(live, s.orelse)
            else:
                out += [(x_, 'next', None) for x_ in live]
            out += [(x_, 'next', None) for x_ in broke]
            return out
        self.loop_depth += 1
        start = st
        if self.havoc is not None and self.havoc(s, self, itv, elems):
            start = self.forget(st, s)
            self.emit(start, 'LOOPSTART', s, itv)
        ends, broke = [], []
        cur = start
        for npass in range(self.loop_passes):
            these = []
            for el in elems:
                s1 = cur.copy()
                self.emit(s1, 'ITER', s, itv, el, 'for')
                for s2 in self.assign(s1, s.target, el):
                    for s3, k, v in self.block([s2], s.body):
                        if k in ('next', 'continue'):
                            s3 = s3.copy()
                            self.emit(s3, 'ITEREND', s, itv, el)
                            these.append(s3)
                        elif k == 'break':
                            s3 = s3.copy()
                            self.emit(s3, 'BREAK', s, itv, el)
                            broke.append(s3)
                        else:
                            out.append((s3, k, v))
            ends += these
            if npass + 1 < self.loop_passes and these:
                m = self.merge([cur] + these)
                cur = m if m is not cur else cur.copy()
        self.loop_depth -= 1
        none = start.copy()
        self.emit(none, 'ITERNONE', s, itv)
        after = ends if mode == 'one' else [none] + ends
        # the elements of a fresh collection that is known not to be empty are visited
        if itv[0] == 'n' and start.heap.get((itv, '#nonempty')) and ends:
            after = ends
        after = self.group(after) if len(after) > 1 else after
        if s.orelse:
            out += self.block(after, s.orelse)
        else:
            out += [(x_, 'next', None) for x_ in after]
        out += [(x_, 'next', None) for x_ in broke]
        return out

    def forget(self, st, s):
        """The state at the start of some iteration of a loop: what the body assigns or may change is unknown."""
        st = st.copy()
        names = _assigned(s.body)
        for nm, v in list(st.env.items()):
            if nm in names or v[0] == 'n' and v[1] in ('dict', 'list', 'set'):
                t = self.typeof(st, v)
                st.env[nm] = ('lv', s.lineno, nm)
                if t in ('Term', 'SectionTerm', 'RootSectionTerm'):
                    st.types[st.env[nm]] = t
        for k in list(st.heap):
            if k[0][0] == 'p' and k[0] in st.env.values() and isinstance(k[1], str) and not k[1].startswith(('#', '[', '{')):
                if (k[0], k[1]) not in self.keep:
                    del st.heap[k]
        return st

    st_AsyncFor = st_For

    def st_While(self, st, s):
        if self.seqs:
            st = st.copy()
            st.heap[(('u', 'path'), 'fuzzy')] = TRUE
        out = []
        live = [st]
        exits = []
        self.loop_depth += 1
        for i in range(2 if self.loop_passes < 3 else 3):
            nxt = []
            for s1 in live:
                for s2, b in self.eval_cond(s1, s.test):
                    if not b:
                        exits.append(s2)
                        continue
                    for s3, k, v in self.block([s2], s.body):
                        if k in ('next', 'continue'):
                            nxt.append(s3)
                        elif k == 'break':
                            exits.append(s3)
                        else:
                            out.append((s3, k, v))
            live = self.group(nxt)
        # leave after the last interpreted iteration
        for s1 in live:
            t = self.const_true(s.test)
            if not t:
                exits.append(s1)
        self.loop_depth -= 1
        out += [(x_, 'next', None) for x_ in self.limit(exits)]
        return out

    @staticmethod
    def const_true(e):
        return isinstance(e, ast.Constant) and bool(e.value)

    def st_Break(self, st, s):
        return [(st, 'break', None)]

    def st_Continue(self, st, s):
        return [(st, 'continue', None)]

    def st_FunctionDef(self, st, s):
        st, v = self.closure(st, s, s.name)
        st.env[s.name] = v
        return [(st, 'next', None)]

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, st, s):
        st = st.copy()
        st.env[s.name] = ('u', 'localclass', s.name)
        return [(st, 'next', None)]

    def st_Import(self, st, s):
        st = st.copy()
        for a in s.names:
            dotted = a.name if a.asname else a.name.split('.')[0]
            r = self.prog.resolve_import(('mod', dotted))
            if a.name.startswith('metatab.') and a.name not in self.prog.modules and a.asname:
                r = ('x', 'module', (C(a.name),))
            st.env[a.asname or a.name.split('.')[0]] = r
        return [(st, 'next', None)]

    def st_ImportFrom(self, st, s):
        st = st.copy()
        m = self.stack[-1][0].module
        mod = s.module
        if s.level:
            parts = m.name.split('.')
            if not m.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            mod = '.'.join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == '*':
                continue
            r = self.prog.resolve_import(('from', mod, a.name))
            if r is None:
                self.emit(st, 'UNDEFINED', s, '%s.%s' % (mod, a.name))
                r = TOP
            st.env[a.asname or a.name] = self.global_ref(r)
        return [(st, 'next', None)]

    def st_Delete(self, st, s):
        states = [st]
        for t in s.targets:
            nxt = []
            for s1 in states:
                if isinstance(t, ast.Name):
                    s1 = s1.copy()
                    s1.env.pop(t.id, None)
                    nxt.append(s1)
                elif isinstance(t, ast.Subscript):
                    for s2, b in self.eval(s1, t.value):
                        if isinstance(t.slice, ast.Slice):
                            s2 = s2.copy()
                            self.emit(s2, 'MUT', t, b, '__delslice__', (), ())
                            if self.seqs:
                                s2.heap.pop((b, '#seq'), None)
                            nxt.append(s2)
                            continue
                        for s3, k in self.eval(s2, t.slice):
                            c = self.cls(s3, b)
                            if c is not None and c.find('__delitem__'):
                                nxt += [s4 for s4, _ in self.call_func(s3, c.find('__delitem__'), b, [k], {}, None,
                                                                       None, t)]
                            else:
                                self.emit(s3, 'DEREF', t, b, '[]')
                                for s4, _ in self.mutate(s3, b, '__delitem__', [k], {}, None, t):
                                    s4.heap.pop((b, '[k]', k), None)
                                    nxt.append(s4)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.eval(s1, t.value):
                        s2 = s2.copy()
                        self.emit(s2, 'DELATTR', t, b, C(t.attr))
                        s2.heap.pop((b, t.attr), None)
                        nxt.append(s2)
                else:
                    nxt.append(s1)
            states = nxt
        return [(x_, 'next', None) for x_ in states]

    def st_Global(self, st, s):
        self.emit(st, 'GLOBAL', s, tuple(s.names))
        return [(st, 'next', None)]

    def st_Nonlocal(self, st, s):
        return [(st, 'next', None)]

    def st_Match(self, st, s):
        out = []
        for s1, v in self.eval(st, s.subject):
            live = [s1]
            for case in s.cases:
                nxt = []
                for s2 in live:
                    alts = self.match_pattern(s2, v, case.pattern)
                    for s3, b in alts:
                        if not b:
                            nxt.append(s3)
                            continue
                        if case.guard is not None:
                            for s4, g in self.eval_cond(s3, case.guard):
                                if g:
                                    out += self.block([s4], case.body)
                                else:
                                    nxt.append(s4)
                        else:
                            out += self.block([s3], case.body)
                live = nxt
            out += [(x_, 'next', None) for x_ in live]
        return out

    def match_pattern(self, st, v, p):
        if isinstance(p, ast.MatchValue):
            res = []
            for s, c in self.eval(st, p.value):
                self.emit(s, 'CMP', p, '==', v, c)
                res += self.branch(s, self.eq(v, c))
            return res
        if isinstance(p, ast.MatchSingleton):
            cv = C(p.value)
            return self.branch(st, op('isnone', v) if p.value is None else op('is', v, cv))
        if isinstance(p, ast.MatchAs):
            st = st.copy()
            if p.pattern is not None:
                res = []
                for s, b in self.match_pattern(st, v, p.pattern):
                    if b and p.name:
                        s = s.copy()
                        s.env[p.name] = v
                    res.append((s, b))
                return res
            if p.name:
                st.env[p.name] = v
            return [(st, True)]
        if isinstance(p, ast.MatchOr):
            res, live = [], [st]
            for q in p.patterns:
                nxt = []
                for s in live:
                    for s2, b in self.match_pattern(s, v, q):
                        (res if b else nxt).append((s2, True) if b else s2)
                live = nxt
            return res + [(s, False) for s in live]
        a, b = st.copy(), st.copy()
        for n in ast.walk(p):
            if isinstance(n, ast.MatchAs) and n.name:
                a.env[n.name] = TOP
        return [(a, True), (b, False)]

    # ------------------------------------------------------------------ entry points

    def run(self, f, args=None, types=None, selftype=None, env=None, conds=None, heap=None):
        """Interpret f as an entry point. Generators are run to their end. [(state, kind, value)]"""
        st = State()
        a = f.node.args
        pnames = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        e = {}
        pt = dict(PARAM_TYPES.get(f.qual, {}))
        if types:
            pt.update(types)
        for i, p in enumerate(pnames):
            v = ('p', p)
            if args and p in args:
                v = args[p]
            elif i == 0 and f.cls is not None and not f.is_staticmethod:
                if f.is_classmethod:
                    v = ('C', selftype or f.cls.name)
                else:
                    st.types[v] = selftype or f.cls.name
            else:
                t = pt.get(p) or PARAM_TYPE_BY_NAME.get(p)
                if t is not None:
                    st.types[v] = t
            e[p] = v
        if a.vararg:
            v = ('p', a.vararg.arg)
            st.types[v] = pt.get(a.vararg.arg, 'tuple')
            e[a.vararg.arg] = v
        if a.kwarg:
            v = ('p', a.kwarg.arg)
            st.types[v] = 'dict'
            e[a.kwarg.arg] = v
        if env:
            e.update(env)
        if conds:
            st.conds.update(conds)
        if heap:
            st.heap.update(heap)
        st.env = e
        self.exc.append([])
        sink = []
        if f.is_generator:
            self.gens.append(sink)
        outs = self.run_body(st, f, f.node)
        if f.is_generator:
            self.gens.pop()
        extra = self.exc.pop()
        outs += [(s, 'raise', v) for s, v in extra]
        return outs


class _Nowhere:
    lineno = 0
    col_offset = 0


_NOWHERE = _Nowhere()


def _may_raise(stm):
    for n in ast.walk(stm):
        if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.For, ast.Yield, ast.YieldFrom,
                          ast.Compare, ast.Raise)):
            return True
        if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) for t in n.targets):
            return True
        if isinstance(n, ast.Name) and isinstance(stm, ast.Expr):
            return True
    return False


def _assigned(stmts):
    out = set()
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef):
                for k in ast.walk(n):
                    if isinstance(k, ast.Nonlocal):
                        out.update(k.names)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        todo.extend(ast.iter_child_nodes(n))
    return out


def _load_copy(n):
    if isinstance(n, ast.Name):
        return ast.Name(n.id, ast.Load())
    if isinstance(n, ast.Attribute):
        return ast.copy_location(ast.Attribute(n.value, n.attr, ast.Load()), n)
    if isinstance(n, ast.Subscript):
        return ast.copy_location(ast.Subscript(n.value, n.slice, ast.Load()), n)
    return n
