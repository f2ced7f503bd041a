"""Abstract values: hashable trees that say where a value comes from.

('c', type, const)            constant
('p', name)                   parameter of the analysed entry point
('a', base, attr)             what attribute `attr` of `base` held when the entry point was called
('e', base)                   some element of `base`
('k', base)                   some key of the mapping `base`
('i', base, key)              item of `base`
('n', kind, site)             object created during the analysed call
('x', name, args)             result of an external call or of a call that is not analysed further
('o', op, args...)            result of an operator or of a string operation
('t', v...)                   tuple
('g', dotted)                 external module, function or class
('G', module, name)           global variable of the package
('F', key) ('C', name) ('M', name)   function, class, module of the package
('b', funckey, self)          bound method
('m', base, name)             method of an object that is not of the package
('L', id)                     nested function or lambda
('phi', frozenset)            any of these
('lv', loop, name)            value of a loop-carried variable at the start of an iteration
('u', ...)                    unknown
"""

TOP = ('u', 'top')
UNBOUND = ('u', 'unbound')
PHI_MAX = 10
SIZE_MAX = 400


def C(v):
    return ('c', type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_const(v):
    return v[0] == 'c'


def cval(v):
    return v[2]


def phi(vals):
    out = set()
    for v in vals:
        if v[0] == 'phi':
            out |= v[1]
        else:
            out.add(v)
    if not out:
        return TOP
    if len(out) == 1:
        return next(iter(out))
    if TOP in out:
        out.discard(TOP)
        if len(out) == 1:
            out.add(TOP)
    if len(out) > PHI_MAX:
        return TOP
    return ('phi', frozenset(out))


def members(v):
    if v[0] == 'phi':
        return sorted(v[1], key=repr)
    return [v]


_size = {}


def size(v):
    if not isinstance(v, tuple) or not v:
        return 1
    s = _size.get(v)
    if s is None:
        if v[0] == 'phi':
            s = 1 + sum(size(x) for x in v[1])
        else:
            s = 1 + sum(size(x) for x in v[1:])
        if len(_size) < 500000:
            _size[v] = s
    return s


def op(name, *args):
    v = ('o', name) + args
    if size(v) > SIZE_MAX:
        return TOP
    return v


def x(name, *args):
    v = ('x', name, args)
    if size(v) > SIZE_MAX:
        return ('x', name, (TOP,))
    return v


def walk(v):
    """All subvalues of v."""
    todo = [v]
    seen = set()
    while todo:
        a = todo.pop()
        if not isinstance(a, tuple) or a in seen:
            continue
        if a and isinstance(a[0], str) and a[0] in TAGS:
            seen.add(a)
            yield a
            if a[0] == 'phi':
                todo.extend(a[1])
            elif a[0] in ('c', 'p', 'g', 'G', 'F', 'C', 'M', 'n', 'L', 'lv', 'u'):
                continue
            else:
                todo.extend(y for y in a[1:] if isinstance(y, tuple))
        else:
            todo.extend(y for y in a if isinstance(y, tuple))


TAGS = {'c', 'p', 'a', 'e', 'k', 'i', 'n', 'x', 'o', 't', 'g', 'G', 'F', 'C', 'M', 'b', 'm', 'L', 'phi', 'lv', 'u',
        'super', 'kw'}


def show(v, depth=6):
    """Readable form for reports."""
    if not isinstance(v, tuple):
        return str(v)
    if depth <= 0:
        return '…'
    t = v[0]
    s = lambda a: show(a, depth - 1)
    if t == 'c':
        return repr(v[2])
    if t == 'p':
        return v[1]
    if t == 'a':
        return '%s.%s' % (s(v[1]), v[2])
    if t == 'e':
        return 'each(%s)' % s(v[1])
    if t == 'k':
        return 'key(%s)' % s(v[1])
    if t == 'i':
        return '%s[%s]' % (s(v[1]), s(v[2]))
    if t == 'n':
        return 'new %s' % v[1]
    if t == 'x':
        return '%s(%s)' % (v[1], ', '.join(s(a) for a in v[2]))
    if t == 'o':
        return '%s(%s)' % (v[1], ', '.join(s(a) if isinstance(a, tuple) else str(a) for a in v[2:]))
    if t == 't':
        return '(%s)' % ', '.join(s(a) for a in v[1:])
    if t == 'phi':
        return '{%s}' % ' | '.join(sorted(s(a) for a in v[1]))
    if t in ('g', 'C', 'M'):
        return v[1]
    if t == 'F':
        return v[1].split(':')[1]
    if t == 'G':
        return v[1] + '.' + v[2]
    if t == 'b':
        return '%s.%s' % (s(v[2]), v[1].split(':')[1].split('.')[-1])
    if t == 'm':
        return '%s.%s' % (s(v[1]), v[2])
    if t == 'lv':
        return v[2]
    if t == 'kw':
        return '%s=%s' % (v[1], s(v[2]))
    return '<%s>' % ' '.join(str(a) for a in v)
