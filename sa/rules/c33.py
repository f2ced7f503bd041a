"""C33 Dict conversion follows the declared property types."""
import re

from ..common import *

RVN = ('p', 'replace_value_names')
KINDS = {'ITERNONE', 'ITER', 'COND', 'CALL', 'RECURSION', 'HANDLER'}
TYPES = ('scalar', 'sequence', 'sconcat', 'bconcat', 'any')
SHAPES = ('x', 'x x', 'x x x', 'x y x', 'y x x y')


def find_where(f):
    return (f.module.path, f.qual, f.node.lineno)


def is_conv(v):
    return v[0] == 'x' and v[1].startswith('rec:')


def run(prog, ck, thorough):
    ck.rule('entry', 'the entry of a child name is the last value, the list or the concatenation of all values, as the type says', 0)
    ck.rule('value', 'the value of the term is under its value name or @value, and a term without children is its value', 0)
    ck.rule('document', 'the dict of a section or document has the terms of the section, or of all sections', 0)
    ck.rule('props', 'the properties of a term have the value of each child, and of each column of its section, under the name in '
                     'lower case', 0)
    ck.notes.append('the conversion is followed for one to four children with up to two names and every property type; the '
                    'values of the children are symbolic, each with and without being empty')

    def interp(cap, kids_of, heap):
        at = boundaries(prog, inline=['Term.record_term_lc', 'Term.as_dict', 'SectionTerm.as_dict', 'RootSectionTerm.as_dict',
                                      'MetatabDoc.as_dict', 'Term.join_lc', 'Term.join',
                                      'Term.__setattr__', 'RootSectionTerm.__init__', 'SectionTerm.__init__',
                                      'Term.__init__'])
        it = Interp(prog, atoms=at, cap=cap, comp_paths=True, merge_calls=False, implicit=False, max_rec=0,
                    observers=[lambda e, s, i: e.kind in KINDS],
                    ext_hook=lambda n, a, kw, st, i: C('id of ' + a[0][1]) if n == 'id' and a and a[0][0] == 'p' else None)
        it.precise = True
        it.exact_comp = True
        it.plain = lambda v: is_conv(v) or v[0] == 'a' and v[2] == 'value'
        it.iter_hook = lambda v, st, i: kids_of.get(v)
        return it

    def children(names, types, prefix='c'):
        heap, kids = {}, []
        for i, n in enumerate(names):
            c = ('p', prefix + str(i))
            kids.append(c)
            heap[(c, 'child_property_type')] = C(types[n])
            heap[(c, 'record_term')] = C(n)
            heap[(c, 'parent_term')] = C('par')
            heap[(c, 'term_value_name')] = C('Other')
        return kids, heap

    def entry(st, d, k):
        return st.heap.get((d, '[k]', C(k)))

    def keys(st, d):
        kc = st.heap.get((d, '{k}'))
        return set() if kc is None else {cval(m) for m in members(kc) if (d, '[k]', m) in st.heap}

    def known(it, st, v):
        if any(e.kind == 'ITERNONE' and '__init__' not in e.where[1] for e in st.events):
            return False
        return v[0] == 'n' and v[1] == 'dict' and it.tracked(st, v)

    def child_of(st, it, v, kids):
        """The child whose converted value v is."""
        if is_conv(v):
            return next((c for c in kids if c in v[2]), None)
        if v[0] == 'a' and v[2] == 'value' and v[1] in kids:
            if it.truth(st, ('a', v[1], 'children')) is False:
                return v[1]
        return None

    def conv_truth(st, it, c, kids):
        for k, b in st.conds.items():
            if child_of(st, it, k, kids) == c:
                return b
        return None

    def parts(st, it, v, kids):
        """The pieces of a concatenation, or None."""
        if is_const(v):
            return [] if cval(v) in ('', None) else [cval(v)] if isinstance(cval(v), str) else None
        c = child_of(st, it, v, kids)
        if c is not None:
            return [] if conv_truth(st, it, c, kids) is False else [c]
        if (v[0] == 'x' and v[1] == 'str' and len(v[2]) == 1 or v[0] == 'o' and v[1] == 'str' and len(v) == 3):
            w = v[2][0] if v[0] == 'x' else v[2]
            c = child_of(st, it, w, kids)
            # the text of an empty value is 'None'
            return parts(st, it, w, kids) if c is None or conv_truth(st, it, c, kids) is not False else ['None']
        if v[0] == 'o' and v[1] == 'fmt' and is_const(v[2]) and isinstance(cval(v[2]), str):
            lits = re.split(r'\{[^{}]*\}', cval(v[2]))
            if len(lits) != len(v) - 2:
                return None
            out = [lits[0]]
            for w, lit in zip(v[3:], lits[1:]):
                p = parts(st, it, w, kids)
                if p is None:
                    return None
                out += p + [lit]
            return [p for p in out if p != '']
        if v[0] == 'o' and v[1] == '+':
            out = []
            for w in v[2:]:
                p = parts(st, it, w, kids)
                if p is None:
                    return None
                out += p
            return out
        if v[0] == 'o' and v[1] == 'join' and is_const(v[2]):
            out = []
            for i, w in enumerate(v[3:]):
                p = parts(st, it, w, kids)
                if p is None:
                    return None
                out += ([cval(v[2])] if i and cval(v[2]) else []) + p
            return out
        return None

    def glue(ps):
        out = []
        for p in ps:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        return out

    def text(v, st=None, it=None):
        if isinstance(v, list):
            return '[%s]' % ', '.join(text(e) for e in v)
        return repr(v) if isinstance(v, str) else 'value of ' + v[1] if v[0] == 'p' else show(v)[:50]

    def expected(ptype, mine, st, it, kids):
        if ptype == 'scalar':
            return mine[-1]
        if ptype == 'sequence':
            return list(mine)
        if ptype in ('sconcat', 'bconcat'):
            out = []
            for i, c in enumerate(mine):
                if i and ptype == 'sconcat':
                    out.append(' ')
                t = conv_truth(st, it, c, kids)
                if t is None:
                    return None
                if t:
                    out.append(c)
            return ('cat', glue(out))
        return mine[0] if len(mine) == 1 else list(mine)

    def actual(st, it, v, kids, ptype):
        """The form of an entry: a child, a list of children, a concatenation, or None if it is not known."""
        if ptype in ('sconcat', 'bconcat'):
            ps = parts(st, it, v, kids)
            if ps is not None:
                return ('cat', glue(ps))
            if v[0] == 'n' and v[1] == 'list':
                return ['list']
            return None
        c = child_of(st, it, v, kids)
        if c is not None:
            return c
        seq = it.exact(st, v)
        if seq is not None:
            out = [child_of(st, it, e, kids) for e in seq]
            if None in out:
                return ['something else'] if all(is_const(e) or is_conv(e) or it.exact(st, e) is not None for e in seq) else None
            return out
        if v[0] == 'n' and v[1] == 'list' and any(m[0] == 'e' and child_of(st, it, m[1], kids) for m in members(st.heap.get((v, '[]'), NONE))):
            return ['the parts of a value']
        if is_const(v):
            return ['constant']
        if v[0] == 'o' and v[1] in ('+', 'join', 'fmt') and any(child_of(st, it, w, kids) for w in walk(v)):
            return ['concatenation']
        return None

    def options(st, f, fail):
        """Each recursive call passes the option on."""
        for e in st.events:
            if e.kind == 'RECURSION':
                g = next((a.args[2] for a in st.events if a.kind == 'CALL' and a.args[0] == e.args[0]), None)
                if g is not None and g.outer is None and RVN not in dict(e.args[1]).values():
                    fail(e.where, 'option', 'the values below are not converted with the option that was asked for')

    def decide(st, it, v, names, types, kids, fail, f):
        """Whether the result is known; reports what is wrong with it."""
        if v[0] != 'n' or v[1] != 'dict':
            if any(e.kind == 'ITERNONE' and '__init__' not in e.where[1] for e in st.events):
                return False
            if is_const(v) or v[0] == 'a' or v[0] == 't' or v[0] == 'n' and v[1] in ('list', 'set', 'str'):
                fail(find_where(f), 'result', 'a term with children gives %s, not a dict' % show(v)[:60])
                return True
            return False
        if not known(it, st, v):
            return False
        ok = True
        want = {}
        for c, n in zip(kids, names):
            want.setdefault(n.lower(), []).append(c)
        for n, mine in want.items():
            if n == 'vname':
                continue
            ptype = types[n]
            e = entry(st, v, n)
            exp = expected(ptype, mine, st, it, kids)
            if e is None:
                fail(find_where(f), 'entry ' + ptype, 'children %s of type %s: there is no entry for the name' % (' '.join(names), ptype))
                continue
            if exp is None:
                # an empty value is not told apart from others: it must not be added as it is
                ps = parts(st, it, e, kids)
                if ps is not None and any(a in ps for a in mine):
                    fail(find_where(f), 'empty', 'children %s of type %s: an empty value is added to the text' % (' '.join(names), ptype))
                ok = False
                continue
            got = actual(st, it, e, kids, ptype)
            if got is None:
                ok = False
                continue
            if got != exp:
                fail(find_where(f), 'entry ' + ptype, 'children %s of type %s: the entry is %s, not %s' % (
                    ' '.join(names), ptype, text(got[1] if got[:1] == ('cat',) else got), text(exp[1] if exp[:1] == ('cat',) else exp)))
        return ok

    # ------------------------------------------------------------------------------------------------- Term.as_dict
    conv = prog.func('terms', 'Term.as_dict')
    me = ('p', conv.params[0])
    CH = ('a', me, 'children')
    items = [(s, t, t) for s in SHAPES for t in TYPES + ('unknown',)]
    items += [('x y', a, b) for a in TYPES for b in TYPES if a != b]
    items += [('x vname', t, t) for t in TYPES]
    if thorough:
        items += [('x y x y', a, b) for a in TYPES for b in TYPES if a != b] + [('x x x x', t, t) for t in TYPES]

    def term(item, cap):
        shape, tx, ty = item
        names = shape.split()
        types = {'x': tx, 'y': ty, 'vname': 'any'}
        kids, heap = children(names, types)
        heap[(me, 'term_value_name')] = C('Vname')
        heap[(me, 'children')] = CH
        it = interp(cap, {CH: kids}, heap)
        bad, obs = {}, []

        def fail(where, what, msg):
            bad.setdefault((where, what), Finding('value' if what.startswith('value') else 'entry', where, what, msg))

        n = und = 0
        for st, k, v in it.run(conv, {'replace_value_names': RVN}, heap=heap, conds={me: True, CH: True}):
            if k == 'raise':
                und += 1
                if v[0] == 'x' and v[1] in ('exc:KeyError', 'exc:AttributeError'):
                    fail(find_where(conv), 'raise', 'children %s of type %s: the conversion raises %s at line %s' % (
                        shape, tx, v[1][4:], cval(v[2][0]) if v[2] else '?'))
                continue
            options(st, conv, fail)
            n += 1
            if not decide(st, it, v, names, types, kids, fail, conv):
                und += 1
                continue
            V = ('a', me, 'value')
            t, r = it.truth(st, V), it.truth(st, RVN)
            ks = {a: entry(st, v, a) for a in ('vname', '@value')}
            where = find_where(conv)
            if 'vname' in names:
                ks.pop('vname') if t is not True or r is not True else None
                ks.setdefault('vname', None)
            if t is False and any(ks.values()):
                fail(where, 'value none', 'an entry is made for the value although the term has none')
            if t is None and any(a == V for a in ks.values() if a):
                fail(where, 'value none', 'an entry is made for the value although it is not known that the term has one')
            if t is True and r is not None:
                name, other = ('vname', '@value') if r else ('@value', 'vname')
                if ks[name] is None or ks[name] != V:
                    fail(where, 'value name', 'the value of the term is not under its %s (%s)' % (
                        'value name' if r else '@value', show(ks[name]) if ks[name] else 'no entry'))
                if ks[other] is not None and 'vname' not in names:
                    fail(where, 'value other', 'the value of the term is also under another name')
            extra = keys(st, v) - {a.lower() for a in names} - {'vname', '@value'}
            if extra:
                fail(where, 'extra', 'there is an entry %s that is no child name' % sorted(extra)[:3])
        if n and not und:
            obs.append(('entry', '%s %s %s' % item))
            obs.append(('value', '%s %s %s' % item))
        return pack(it, list(bad.values()), obs, undecided=[str(item)] if und else [])

    def value(item, cap):
        it = interp(cap, {CH: []}, {})
        bad, obs = {}, []
        heap = {(me, 'term_value_name'): C('Vname')}
        for st, k, v in it.run(conv, {'replace_value_names': RVN}, heap=heap, conds={me: True, CH: False}):
            if k != 'return':
                continue
            V = ('a', me, 'value')
            for m in members(v):
                if m == V:
                    obs.append(('value', 'no children'))
                elif is_const(m) and not (m == NONE and it.truth(st, op('isnone', V))) or m[0] == 'n' and m[1] in ('dict', 'list') or m[0] == 'o' and m[1] == 'str':
                    bad[0] = Finding('value', find_where(conv), 'no children', 'a term without children gives %s, not its value' % show(m)[:60])
        return pack(it, list(bad.values()), obs[:1], undecided=[])

    und = []
    for r in sweep(ck, items, term, label=str, caps=(512, 128)):
        und += r['undecided']
    sweep(ck, ['no children'], value, caps=(64, 16))

    # ------------------------------------------------------------------------------------------------- sections, documents
    def section(item, cap):
        q, shape, tx, ty = item
        f = prog.func('doc' if q.startswith('Meta') else 'terms', q)
        s = ('p', f.params[0])
        names = shape.split()
        types = {'x': tx, 'y': ty, 'vname': 'any'}
        kids, heap = children(names, types, 't')
        T = ('a', s, 'terms')
        if q.startswith('Meta'):
            secs = [('p', 'sa'), ('p', 'sb')]
            kids_of = {s: secs, ('x', 'MetatabDoc.__iter__', (s,)): secs}
            for w in (('o', 'items', ('a', s, 'sections')), ('x', 'items', (('a', s, 'sections'),))):
                kids_of[w] = [('t', C('sa'), secs[0]), ('t', C('sb'), secs[1])]
            for w in (('o', 'values', ('a', s, 'sections')), ('x', 'values', (('a', s, 'sections'),))):
                kids_of[w] = secs
            cut = max(1, len(kids) - 1)
            for sec, ks in zip(secs, (kids[:cut], kids[cut:])):
                kids_of[sec] = kids_of[('a', sec, 'terms')] = ks
                kids_of[('x', 'SectionTerm.__iter__', (sec,))] = ks
        else:
            kids_of = {T: kids, s: kids}
            heap[(s, 'term_value_name')] = C('@value')
        it = interp(cap, kids_of, heap)
        it.field_types = dict(it.field_types)
        bad, obs = {}, []

        def fail(where, what, msg):
            bad.setdefault((where, what), Finding('document', where, what, '%s: %s' % (q, msg)))

        n = und = 0
        for st, k, v in it.run(f, {'replace_value_names': RVN}, heap=heap, conds={s: True, T: True}):
            if k != 'return':
                und += 1
                continue
            options(st, f, fail)
            n += 1
            if not decide(st, it, v, names, types, kids, fail, f):
                und += 1
                continue
            r = it.truth(st, RVN)
            if q != 'SectionTerm.as_dict' and r is True and '@value' in keys(st, v) and entry(st, v, '@value') is not None:
                fail(find_where(f), '@value', 'the name of the root section is left in the dict')
            if r is False and (q.startswith('Meta') or it.truth(st, st.heap.get((s, 'value'), ('a', s, 'value')))) and entry(st, v, '@value') is None:
                fail(find_where(f), '@value', 'the value of the section is not in the dict when value names are not replaced')
        if n and not und:
            obs.append(('document', '%s %s %s %s' % item))
        return pack(it, list(bad.values()), obs, undecided=[str(item)] if und else [])

    def props(item, cap):
        q, shape, nargs = item
        f = prog.func('terms', q)
        s = ('p', f.params[0])
        names = shape.split()
        kids, heap = children(names, {n: 'any' for n in names})
        heap[(s, 'term_value_name')] = C('Vname')
        cols = [C('Col'), C('x'), C('Zed')]
        args = [('p', 'arg%d' % i) for i in range(nargs)]
        sec = ('a', s, 'section')
        kids_of = {('a', s, 'children'): kids, ('a', s, 'args'): args}
        it = interp(cap, kids_of, heap)
        it.iter_hook = lambda v, st, i: cols if v[0] == 'x' and v[1] == 'SectionTerm.property_names' or \
            v[0] == 'a' and v[2] == 'property_names' else kids_of.get(v)
        for a in ('Term.props', 'Term.arg_props', 'Term.all_props', 'Term.section'):
            it.atoms.pop(a, None)
        want = {}
        if q != 'Term.props':
            for c, a in zip(cols, args):
                want[cval(c).lower()] = a
            want['vname'] = ('a', s, 'value')
        if q != 'Term.arg_props':
            for c, n in zip(kids, names):
                want[n.lower()] = ('a', c, 'value')
        bad, obs, n, und = {}, [], 0, 0
        for st, k, v in it.run(f, heap=heap, conds={sec: True}):
            if k != 'return':
                continue
            n += 1
            if not known(it, st, v):
                und += 1
                continue
            for a, b in want.items():
                e = entry(st, v, a)
                if e is None or e != b and not (e[0] == 'phi' or e[0] == 'x'):
                    bad.setdefault(a, Finding('props', find_where(f), a, '%s, children %s, %d arguments: the entry %s is %s, not %s' % (
                        q, shape, nargs, a, show(e)[:60] if e else 'missing', show(b))))
                elif e != b:
                    und += 1
            extra = keys(st, v) - set(want)
            if extra:
                bad.setdefault('+', Finding('props', find_where(f), 'extra', '%s: there is an entry %s for no child and no column' % (
                    q, sorted(map(str, extra))[:3])))
        if n and not und:
            obs.append(('props', '%s %s %d' % item))
        return pack(it, list(bad.values()), obs, undecided=[str(item)] if und or not n else [])

    pits = [(q, sh, na) for q in ('Term.props', 'Term.arg_props', 'Term.all_props') for sh in ('x', 'x y', 'x x', 'y vname')
            for na in (3, 2, 0)]
    for r in sweep(ck, pits, props, label=str, caps=(128, 32)):
        und += r['undecided']

    its = [(q, sh, tx, ty) for q in ('SectionTerm.as_dict', 'RootSectionTerm.as_dict', 'MetatabDoc.as_dict')
           for sh, tx, ty in (('x', 'any', 'any'), ('x x', 'any', 'any'), ('x y x', 'any', 'any'), ('x y x', 'sequence', 'scalar'))]
    for r in sweep(ck, its, section, label=str, caps=(512, 128)):
        und += r['undecided']
    ck.notes.append('%d cases, %d of them not decided' % (len(items) + len(its) + len(pits), len(und)))
    if und:
        ck.notes.append('not decided: ' + '; '.join(und[:8]))
