"""C18 Absent terms and sections are tolerated."""
from ..common import *

PASSES = 2      # of loop bodies

LAST = {'find_first', 'find_first_value', 'get', 'get_value', 'get_term'}
CLASSES = ('MetatabDoc', 'Term', 'SectionTerm', 'RootSectionTerm')
FIRST = {c + '.' + n for c in CLASSES for n in LAST}
LISTS = {c + '.find' for c in CLASSES}
# external calls that fail when they are given None
NEEDS = {'int', 'float', 'len', 'iter', 'sorted', 'list', 'set', 'tuple', 'dict', 'enumerate', 'sum', 'min', 'max', 'any', 'all',
         'open', 'io.open', 're.sub', 're.match', 're.search', 're.split', 're.findall', 'json.loads', 'os.path.join',
         'os.path.basename', 'os.path.dirname', 'os.path.splitext', 'os.path.exists', 'pathlib.Path', '.extend', '.update',
         '.join', 'next', 'reversed', 'zip', 'os.path.abspath', 'os.path.isfile', 'ord', 'abs', 'round'}
CATCH = {'AttributeError', 'TypeError', 'Exception', 'BaseException', ''}
CATCHKEY = {'KeyError', 'LookupError', 'Exception', 'BaseException', ''}
CATCHIDX = {'IndexError', 'LookupError', 'Exception', 'BaseException', ''}


def nullable(v):
    """v is the result of a lookup that may have found nothing."""
    if v[0] != 'x' or not isinstance(v[1], str):
        return False
    if v[1] in FIRST:
        n = v[1].split('.')[-1]
        if n in ('get', 'get_value'):
            # get(self, name, default)
            return len(v[2]) < 3 or v[2][2] == NONE
        return True
    if v[1] == 'MetatabDoc.get_section':
        return len(v[2]) > 2 and v[2][2] == NONE
    return False


def identifier(v):
    return any(is_const(a) and str(cval(a)).lower() in ('root.identifier', 'identifier') for a in v[2])


def found(st, v):
    """The path has established that the lookup found something."""
    if st.conds.get(v) is True or st.conds.get(('o', 'isnone', v)) is False:
        return True
    for k, b in st.conds.items():
        if k[0] == 'o' and k[1] == 'isinstance' and k[2] == v and b:
            return True
        if k[0] == 'o' and k[1] in ('==', 'is') and v in k[2:] and b and NONE not in k[2:]:
            return True
        # a condition on the value or a part of what was found, which was evaluated before
        if k[0] == 'x' and k[1] == 'hasattr' and k[2] and k[2][0] == v and b:
            return True
        # the value is there, so the term is
        if b and k != v and same_lookup(k, v):
            return True
        if b is False and k[0] == 'o' and k[1] == 'isnone' and same_lookup(k[2], v):
            return True
        # a list of what the lookup goes through is not empty
        if b and k[0] == 'x' and k[1] in LISTS and v[1].split('.')[-1] in LAST and k[2][:2] == v[2][:2]:
            return True
    return False


CREATE = ('new_child', 'new_term', 'get_or_new_child', 'get_or_new_term', 'add_child', 'add_term')


def same_lookup(a, b):
    if a[0] != 'x' or b[0] != 'x' or a[1] not in FIRST or b[1] not in FIRST:
        return False
    norm = lambda v: tuple(C(cval(w).lower()) if is_const(w) and isinstance(cval(w), str) else w for w in v[2][:2])
    if norm(a) != norm(b):
        return False
    # a value that is there means that the term is there; not the other way round
    av, bv = 'value' in a[1].split('.')[-1], 'value' in b[1].split('.')[-1]
    return av or not bv


def missing(st):
    """Lookups that found nothing on the path."""
    out = []
    for k, b in st.conds.items():
        if nullable(k) and b is False:
            out.append(k)
        elif k[0] == 'o' and k[1] == 'isnone' and b and nullable(k[2]):
            out.append(k[2])
    return out


def run(prog, ck, thorough):
    ck.rule('found', 'the result of a lookup that may find nothing is used only where it was found to be there, or where the '
                     'failure is handled', 5)
    ck.rule('section', 'a section other than the root, or a property of a term, is taken by name only where it is known to be '
                       'there, or where its absence is handled', 0)
    ck.rule('first', 'the first of the terms that a search found is taken only when there is one', 0)
    ck.rule('argument', 'the result of a lookup is passed only to functions that accept that there is none', 0)
    ck.rule('error-term', 'the term of an error is used only when the error has one', 1)
    ck.notes += ['an assertion that a term is there does not count as the knowledge that it is',
                 'the identifier is there once ensure_identifier was called, and the root section is always there']
    exits = {'err'}
    at = boundaries(prog, inline=[q for q in exits])
    at = {k: v for k, v in at.items() if k not in exits}
    # a new public helper that looks things up is followed; the lookups themselves are not
    own = FIRST | {'MetatabDoc.get_section', 'MetatabDoc.__getitem__', 'Term.__getitem__', 'SectionTerm.__getitem__'}

    def job(f, cap):
        findings, obs = [], []
        needs, passes = {}, []

        def bad(rule, ev, what, text, it):
            findings.append(Finding(rule, ev.where, what, text, it.chain()))

        def handled(it, types):
            return any(t.split('.')[-1] in types for ts in it.tries for t in ts)

        def ensured(st):
            return any(e.kind == 'CALL' and e.args[0].endswith('.ensure_identifier') for e in st.events)

        def created(st, b):
            """A term with the name that b looks for was created on the path."""
            names = {cval(w).lower().split('.')[-1] for w in b[2][1:2] if is_const(w) and isinstance(cval(w), str)} if b[0] == 'x' else set()
            return bool(names) and any(
                e.kind == 'CALL' and e.args[0].split('.')[-1] in CREATE and any(
                    is_const(m) and isinstance(cval(m), str) and cval(m).lower().split('.')[-1] in names
                    for _, w in e.args[1] if isinstance(w, tuple) and w and isinstance(w[0], str) for m in members(w))
                for e in st.events)

        def check(v, ev, st, it, how):
            """v is used as if it was there."""
            for b in members(v):
                if b[0] == 'p' and it.stack and len(it.stack) == 1:
                    guarded = st.conds.get(b) is True or st.conds.get(('o', 'isnone', b)) is False or any(
                        k[0] == 'o' and k[1] == 'isinstance' and k[2] == b for k in st.conds)
                    if not guarded and not handled(it, CATCH) and len(members(v)) == 1:
                        needs.setdefault(b[1], ev.where)
                    continue
                if nullable(b):
                    obs.append(('found', '%s: %s of %s' % (f.qual, how, show(b)[:120])))
                    if found(st, b) or created(st, b) or any(e.kind != 'CALL' and b in used(e) for e in st.events):
                        continue
                    if handled(it, CATCH):
                        return True     # beyond here, it is there
                    if identifier(b) and ensured(st):
                        continue
                    bad('found', ev, how, '%s: %s is used (%s) although there may be no such term' % (f.qual, show(b)[:120], how), it)
                elif b == NONE and v == NONE and missing(st) and not handled(it, CATCH):
                    m = missing(st)[0]
                    if any(created(st, w) for w in missing(st)):
                        continue
                    bad('found', ev, how, '%s: %s found nothing, and the missing result is used (%s)' % (f.qual, show(m)[:120], how), it)
                elif b[0] == 'a' and b[2] == 'term' and error_value(b[1], st, it):
                    obs.append(('error-term', '%s: %s' % (f.qual, how)))
                    if not (found_attr(st, b) or handled(it, CATCH)):
                        bad('error-term', ev, how, '%s: the term of an error is used (%s) although it may have none' % (f.qual, how), it)

        def used(e):
            return members(e.args[0]) if e.kind == 'DEREF' else e.args[2]

        def found_attr(st, b):
            return st.conds.get(b) is True or st.conds.get(('o', 'isnone', b)) is False

        def error_value(b, st, it):
            if b[0] == 'e' and b[1][0] == 'a' and b[1][2] == 'errors':
                return True
            c = it.cls(st, b) if b[0] in ('x', 'n', 'p', 'e', 'a') else None
            name = getattr(c, 'name', c)
            return isinstance(name, str) and name.endswith('Error')

        def o(ev, st, it):
            k = ev.kind
            if k == 'CALL':
                qual, bound, g = ev.args[:3]
                bound = dict(bound or ())
                for pn, v in bound.items():
                    if isinstance(v, tuple) and v and isinstance(v[0], str) and nullable(v) and qual not in own:
                        if not found(st, v) and not handled(it, CATCH) and not (identifier(v) and ensured(st)):
                            passes.append((qual, pn, ev.where, show(v)[:120], it.chain()))
                if qual in ('MetatabDoc.__getitem__', 'MetatabDoc.get_section') and qual.split('.')[-1] != f.qual.split('.')[-1]:
                    vals = [v for pn, v in bound.items() if pn in ('item', 'name')]
                    dflt = bound.get('default')
                    if vals and is_const(vals[0]) and isinstance(cval(vals[0]), str) and (dflt is None or dflt == FALSE):
                        s = cval(vals[0])
                        obs.append(('section', '%s: %r' % (f.qual, s)))
                        me = bound.get('self')
                        known = any(b and c[0] in 'xo' and s.lower() in show(c).lower() and (
                            'in' in c[1:2] or c[1] in ('MetatabDoc.__contains__', 'MetatabDoc.get_section')) for c, b in st.conds.items())
                        made = any(e.kind == 'CALL' and e.args[0].split('.')[-1] in (
                            'new_section', 'get_or_new_section') and any(is_const(w) and str(cval(w)).lower() == s.lower()
                                                                         for _, w in e.args[1] if isinstance(w, tuple))
                                   for e in st.events)
                        if s.lower() != 'root' and not known and not made and not handled(it, CATCHKEY):
                            bad('section', ev, repr(s), '%s: the section %r is taken although the document may not have it' % (f.qual, s), it)
                return qual.split('.')[-1] in ('ensure_identifier', 'new_section', 'get_or_new_section') + CREATE
            if k == 'DEREF':
                return check(ev.args[0], ev, st, it, ev.args[1])
            elif k == 'XCALL':
                name, recv, args = ev.args[:3]
                if name in NEEDS or name.split('.')[-1] in ('slugify', 'parse_app_url'):
                    for a in args[:2]:
                        if nullable(a) and check(a, ev, st, it, name):
                            return True
            elif k == 'KEY' and ev.args[2] == 'load':
                b, key = ev.args[:2]
                if b[0] == 'x' and b[1] in LISTS and is_const(key) and isinstance(cval(key), int):
                    obs.append(('first', '%s: %s' % (f.qual, show(b)[:120])))
                    if st.conds.get(b) is not True and not handled(it, CATCHIDX) and not any(
                            b in walk(c) and (c[0] == 'o' and c[1] in ('<', '<=', '==') or c[0] == 'x' and c[1] == 'len')
                            for c in st.conds) and not any(bb and nullable(c) and c[2][:2] == b[2][:2] for c, bb in st.conds.items()):
                        bad('first', ev, 'index', '%s: the first of %s is taken although there may be none' % (f.qual, show(b)[:120]), it)
                elif b[0] == 'a' and b[2] == 'sections' and is_const(key) and isinstance(cval(key), str):
                    s = cval(key)
                    obs.append(('section', '%s: %r' % (f.qual, s)))
                    if s.lower() != 'root' and not handled(it, CATCHKEY) and not any(
                            bb and c[0] == 'o' and c[1] == 'in' and c[2] == key for c, bb in st.conds.items()):
                        bad('section', ev, repr(s), '%s: the section %r is taken although the document may not have it' % (f.qual, s), it)
            elif k == 'YIELD' or k == 'STORE' or k == 'EMIT':
                vals = [a for a in ev.args if isinstance(a, tuple) and a and isinstance(a[0], str)]
                for v in vals:
                    plus(v, ev, st, it)
            return False

        def plus(v, ev, st, it):
            for w in walk(v):
                if w[0] == 'o' and w[1] in ('+', 'Sub', 'Mult', 'Div') and len(w) > 3:
                    for a in w[2:4]:
                        if nullable(a):
                            check(a, ev, st, it, 'operand of ' + w[1])

        it = Interp(prog, atoms=at, cap=cap, observers=[o])
        for st, kind, v in it.run(f):
            if kind == 'return' and isinstance(v, tuple):
                class E:
                    where = (f.module.path, f.qual, f.node.lineno)
                plus(v, E, st, it)
        return pack(it, findings, obs, needs={(f.qual, p): w for p, w in needs.items()}, passes=passes)

    items = [f for f in entries(prog, True)]
    rs = sweep(ck, items, job, label=lambda f: f.qual, caps=(400, 64, 12))
    needs = {}
    for r in rs:
        needs.update(r.get('needs', {}))
    for r in rs:
        for qual, pn, where, what, chain in r.get('passes', ()):
            ck.ob('argument', '%s(%s=%s) at line %d' % (qual, pn, what, where[2]))
            if (qual, pn) in needs:
                w = needs[(qual, pn)]
                ck.fail('argument', where, qual, '%s, which may have found nothing, is passed to %s, which uses its parameter %s '
                        'at %s:%d without testing it' % (what, qual, pn, w[0], w[2]))
