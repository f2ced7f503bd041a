"""C23 Names chosen by a document cannot clobber term internals."""
from ..common import *

PASSES = 2      # of loop bodies

# the attributes the property names
STRUCTURE = ('section', 'doc', 'parent', 'children', 'term', 'parent_term', 'record_term', 'file_name', 'file_type', 'row',
             'col', 'args', 'term_value_name', 'child_property_type', 'valid', 'options')
SECTION = ('terms', 'header_args', 'default_term_value_name')
FREE = {'value', '__class__', '__dict__'}


def unresolved(v):
    """A condition about the attributes of the object that the analysis has not decided."""
    for w in walk(v):
        if w[0] == 'x' and w[1] in ('hasattr', 'getattr', 'type', 'vars', 'dir', 'object.__getattribute__') or \
                w[0] == 'a' and w[2] in ('__dict__', '__class__', '__slots__'):
            return True
    return False


def run(prog, ck, thorough):
    ck.rule('assigns-only', 'assigning a structural attribute sets that attribute, whatever the value name and the columns '
                            'are, and nothing else', 20)
    ck.rule('own-attribute', 'every attribute that the package sets on a term is an attribute from the start, a property '
                             'with a setter, or the value', 10)
    ck.rule('construction', 'while a term is being constructed, every assignment sets that attribute only', 15)
    ck.notes += ['the value name and the columns of the section are unconstrained; the attributes of the object are the ones '
                 'its constructor sets', 'SectionTerm.subclass changes the class of a term, which then has terms as an attribute']

    term = prog.classes.get('metatab.terms:Term') or next(c for c in prog.classes.values() if c.name == 'Term')
    section = next(c for c in prog.classes.values() if c.name == 'SectionTerm')

    def method(c, name):
        for k in c.mro():
            if not isinstance(k, str) and name in k.methods:
                return k.methods[name]
        return None

    # ------------------------------------------------------------- what the constructors set, in order
    def stores_of(c):
        f = method(c, '__init__')
        orders = set()

        def o(ev, st, it):
            return ev.kind == 'STORE' and isinstance(ev.args[1], str) and has_self(ev.args[0])

        def has_self(b):
            return any(m == ('p', f.params[0]) for m in members(b))

        it = Interp(prog, atoms=boundaries(prog, inline=('Term.section', 'Term.section.setter', 'Term.term',
                                                         'Term.term.setter', 'Term.__init__', 'SectionTerm.__init__')),
                    cap=32, observers=[o])
        for st, kind, v in it.run(f):
            if kind != 'raise':
                orders.add(tuple((mangle(e.args[1], e.where), e.where) for e in st.events))
        return f, orders, it

    attrs = {}
    jobs = []
    for c in (term, section):
        f, orders, it = stores_of(c)
        ck.functions.update(it.analysed)
        if not orders:
            raise AnalysisError('the constructor of %s has no normal path' % c.name)
        common = set.intersection(*[{a for a, _ in o} for o in orders])
        attrs[c.name] = common
        seen = set()
        for order in sorted(orders, key=str):
            for i, (a, where) in enumerate(order):
                if (a, where) not in seen:
                    seen.add((a, where))
                    jobs.append(('construction', c.name, a, tuple(sorted({b for b, _ in order[:i]})), where))
    # a call of a property setter is an assignment of the property
    for c in (term, section):
        for a in STRUCTURE + (SECTION if c is section else ()):
            jobs.append(('assigns-only', c.name, a, tuple(sorted(attrs[c.name])), None))

    # ------------------------------------------------------------- attributes set anywhere
    def used(f, cap):
        out = set()

        def o(ev, st, it):
            if ev.kind == 'STORE' and isinstance(ev.args[1], str):
                for m in members(ev.args[0]):
                    t = it.typeof(st, m)
                    if t in ('Term', 'SectionTerm', 'RootSectionTerm') and f.qual != 'SectionTerm.subclass':
                        out.add((t, ev.args[1], ev.where))
            return False

        it = Interp(prog, atoms=boundaries(prog), cap=cap, observers=[o])
        it.run(f)
        return pack(it, [], [], used=out)

    allused = set()
    for r in sweep(ck, entries(prog, private=True), used, label=lambda f: f.qual, caps=(32, 8)):
        allused |= r['used']
    seen = set()
    for t, a, where in sorted(allused, key=str):
        c = term if t == 'Term' else section
        if where[1].endswith('.__init__'):
            continue
        ck.ob('own-attribute', '%s.%s set in %s' % (t, a, where[1]))
        if a in FREE or a in attrs[c.name] or t == 'Term' and a in attrs['SectionTerm']:
            if (c.name, a) not in seen and a not in FREE and a in attrs[c.name] and a not in STRUCTURE + SECTION:
                seen.add((c.name, a))
                jobs.append(('assigns-only', c.name, a, tuple(sorted(attrs[c.name])), None))
            continue
        if setter(prog, c, a):
            continue
        ck.fail('own-attribute', where, a, '%s sets the attribute %s of a term, which the constructor does not set, so a '
                'column or value name of that name takes it over' % (where[1], a))

    # ------------------------------------------------------------- evaluation of __setattr__
    def evaluate(job, cap):
        rule, cname, a, present, where = job
        c = term if cname == 'Term' else section
        f = method(c, '__setattr__')
        if f is None:
            return dict(findings=[], obligations=[(rule, '%s.%s (no __setattr__)' % (cname, a))])
        me = ('p', f.params[0])
        cur = {'attrs': set(present)}
        findings = []

        def attr(b, n, st, it):
            if b == me and n == '__dict__':
                return ('t',) + tuple(C(e) for e in sorted(cur['attrs']))
            if b == me and n == '__class__':
                return ('x', 'type', (me,))
            if b == me and n == '_Term__initialised' and n in cur['attrs']:
                return TRUE
            return None

        def hook(name, args, kw, st, it):
            if name == 'vars' and args and args[0] == me:
                return ('t',) + tuple(C(e) for e in sorted(cur['attrs']))
            if name in ('hasattr',) and len(args) == 2 and args[0] == me and is_const(args[1]):
                if cval(args[1]) in cur['attrs'] or setter(prog, c, cval(args[1])):
                    return TRUE
            if name == 'getattr' and len(args) == 3 and args[0] == me and is_const(args[1]):
                n = cval(args[1])
                if n.endswith('__initialised'):
                    return TRUE if n in cur['attrs'] else args[2]
            return None

        def o(ev, st, it):
            return ev.kind in ('STORE', 'CALL', 'MUT', 'XCALL', 'DELATTR') and not it.assert_depth

        it = Interp(prog, atoms=boundaries(prog, inline=('Term.section', 'Term.term')), cap=cap, observers=[o], attr_hook=attr,
                    ext_hook=hook)
        n = 0
        for st, kind, v in it.run(f, {f.params[1]: C(a)}):
            n += 1
            if any(unresolved(k) for k in st.conds):
                continue
            done = False
            for e in st.events:
                bad = None
                if e.kind == 'STORE':
                    if me in members(e.args[0]):
                        if e.args[1] == a and set(members(e.args[2])) <= {('p', f.params[2])}:
                            done = True
                        else:
                            bad = 'sets %s' % e.args[1]
                elif e.kind == 'CALL':
                    q = e.args[0]
                    if q.endswith('.setter'):
                        if q.split('.')[-2] == a:
                            done = True
                        else:
                            bad = 'calls %s' % q
                    elif q.split('.')[-1] in ('__setitem__', 'get_or_new_child', 'new_child', 'add_child', 'new_children',
                                              'remove_child', '__delitem__'):
                        bad = 'calls %s' % q
                    elif q.split('.')[-1] == '__setattr__':
                        done = True
                elif e.kind == 'MUT':
                    if any(w == me for w in walk(e.args[0])):
                        key = e.args[3][0] if e.args[3] else None
                        if e.args[1] == '__setitem__' and key == C(a):
                            done = True
                        else:
                            bad = 'changes %s' % show(e.args[0])
                elif e.kind == 'XCALL':
                    nm = e.args[0]
                    if nm.endswith('__setattr__') or nm in ('setattr',):
                        vals = [w for w in e.args[2] if is_const(w)]
                        if vals and cval(vals[0]) == a:
                            done = True
                        elif vals:
                            bad = 'sets %s' % cval(vals[0])
                elif e.kind == 'DELATTR':
                    bad = 'deletes an attribute'
                if bad:
                    findings.append(Finding(rule, e.where, '%s %s' % (cname, a), 'assigning %s of a %s%s %s, when %s' % (
                        a, cname, ' during its construction (%s:%s)' % (where[1], where[2]) if where else '', bad,
                        conds_text(st))))
            if not done and kind != 'raise' and not findings:
                findings.append(Finding(rule, (f.module.path, f.qual, f.node.lineno), '%s %s' % (cname, a),
                                        'assigning %s of a %s does not set it, when %s' % (a, cname, conds_text(st))))
            elif kind == 'raise' and not findings:
                findings.append(Finding(rule, (f.module.path, f.qual, f.node.lineno), '%s %s' % (cname, a),
                                        'assigning %s of a %s raises, when %s' % (a, cname, conds_text(st))))
        return pack(it, findings, [(rule, '%s.%s: %d paths%s' % (cname, a, n, ' at %s:%s' % where[1:3] if where else ''))])

    sweep(ck, jobs, evaluate, label=str)


def mangle(a, where):
    if a.startswith('__') and not a.endswith('__'):
        return '_%s%s' % (where[1].split('.')[0].lstrip('_'), a)
    return a


def conds_text(st):
    return ', '.join('%s is %s' % (show(k)[:70], b) for k, b in st.conds.items() if k[0] != 'o' or k[1] != 'in')[:300] or 'always'


def setter(prog, c, a):
    return c.find_setter(a) is not None
