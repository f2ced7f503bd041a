"""C32 Version arithmetic and generated names are correct."""
import re
import unicodedata

from ..common import *

PARTS = ('origin', 'dataset', 'time', 'space', 'grain', 'variant')
SLUGS = ['abc', 'A b', ' x ', 'a  b', 'a - b', 'a--b', 'a.b', 'a/b', 'A_B', 'Ünï', 'x!', '1.2.3', 'a\tb', "it's", '-a', '日本', 'a&b']
MODS = [False, None, '+1', '-1', '+', '-', '+12', '-12', '+9', '-3', '+0', '-0', '+100', '-256', '9', 'x1', '2.5', '0', '007', 'a-b', 0, 3]
VERSIONS = [None, ('7',), ('12',), ('0',), ('199',), ('1', '2', '3'), ('1', '2', '3', 'b4'), ('0', '0', '0'), ('10', '20', '39'), ('1', '2', '99', '7'), ('1', '2', None),
            ('1', None, '3')]
FOLD = {f.__name__: f for f in (int, float, str, abs, bool, len, round, max, min)}
BLANKS = [None, '', '  ']


def find_where(f):
    return (f.module.path, f.qual, f.node.lineno)


def slug(v):
    v = unicodedata.normalize('NFKD', str(v)).encode('ascii', 'ignore').decode('utf8').strip().lower()
    v = re.sub(r'[^\w\s\-\.]', '', v)
    return re.sub(r'[-\s]+', '-', v)


def new_version(version, mod):
    """(the version, whether it must fail)"""
    if mod is None:
        return None, False
    if version is None:
        return None, mod is not False
    version = tuple('0' if e is None else e for e in version)
    mv = version[0] if len(version) == 1 else version[2]
    if mod is not False:
        mod = str(mod)
        if mod[0] in '+-':
            mv = str(int(mv) + (1 if mod[0] == '+' else -1) * int(mod[1:] or 1))
        else:
            mv = mod
    return (mv if len(version) == 1 else '.'.join((version[0], version[1], mv) + version[3:])), False


def norm(n):
    n = n.strip().lower()
    return n if '.' in n else 'root.' + n


def run(prog, ck, thorough):
    ck.rule('slug', 'slugify gives the ASCII letters, digits, dots and underscores in lower case, with one dash for spaces and dashes', 0)
    ck.rule('name', 'the generated name has the slugs of the parts that are not blank, in order, joined with dashes', 0)
    ck.rule('version', 'the version is kept, left out, set, or changed by the amount that was asked for: the patch number if there '
                       'is one, and the whole version otherwise', 0)
    ck.rule('no-dataset', 'without a dataset name, the name is the identifier if there was no name, and else stays', 0)
    ck.notes.append('constant propagation over a table of parts, versions and changes; each is decided on every path')

    def fold(name, args, kw, st, it):
        short = name.split('.')[-1]
        if args and all(is_const(a) for a in args) and all(is_const(a) for a in kw.values()):
            vs = [cval(a) for a in args]
            if name in FOLD:
                try:
                    return C(FOLD[name](*vs))
                except (ValueError, TypeError):
                    return None
            if name in ('re.sub', 'unicodedata.normalize', 're.compile', 're.match', 're.search'):
                try:
                    r = {'re.sub': re.sub, 'unicodedata.normalize': unicodedata.normalize}.get(name, lambda *a: None)(*vs)
                    return C(r) if r is not None else None
                except Exception:
                    return None
        return None

    # ------------------------------------------------------------------------------------------------- slugify
    sl = next((f for f in prog.funcs.values() if f.qual == 'slugify'), None)

    def slugs(text, cap):
        it = Interp(prog, atoms=boundaries(prog), cap=cap, comp_paths=True, merge_calls=False, ext_hook=fold)
        bad, obs = {}, []
        got = set()
        for st, k, v in it.run(sl, {sl.params[0]: C(text)}):
            if k == 'return':
                got |= set(members(v))
        if got and all(is_const(g) for g in got) and not (len(got) > 1 and slug(text) in {cval(g) for g in got}):
            obs.append(('slug', repr(text)))
            if {cval(g) for g in got} != {slug(text)}:
                bad[0] = Finding('slug', find_where(sl), repr(text), 'slugify(%r) gives %s, not %r' % (
                    text, sorted(repr(cval(g)) for g in got), slug(text)))
        return pack(it, list(bad.values()), obs, undecided=[] if obs else [repr(text)])

    und = []
    if sl is not None:
        for r in sweep(ck, SLUGS, slugs, label=repr, caps=(64, 16)):
            und += r['undecided']

    # ------------------------------------------------------------------------------------------------- names and versions
    P = {n: ('n', 'Term', ('term', n)) for n in PARTS + ('version', 'name', 'identifier', 'major', 'minor', 'patch', 'build')}

    def world(parts, version, name, identifier):
        """(lookup of a term, heap, conditions)"""
        there = {'root.' + n: P[n] for n in PARTS if n in parts}
        heap = {(P[n], 'value'): C(v) for n, v in parts.items()}
        if version is not None:
            there['root.version'] = P['version']
            heap[(P['version'], 'value')] = C('.'.join(e or '' for e in version) if len(version) > 1 else version[0])
            for n, v in zip(('major', 'minor', 'patch', 'build'), version if len(version) > 1 else ()):
                there['version.' + n] = P[n]
                heap[(P[n], 'value')] = C(v)
                heap[(P[n], 'record_term')] = C(n)
        there['root.name'], there['root.identifier'] = P['name'], P['identifier']
        heap[(P['name'], 'value')] = C(name)
        heap[(P['identifier'], 'value')] = C(identifier)
        return there, heap

    def interp(cap, there):
        def by_name(v):
            if is_const(v) and isinstance(cval(v), str):
                return there.get(norm(cval(v)), NONE)
            return None

        def look(param, qual):
            def atom(st, b, it):
                r = by_name(b[param])
                return r if r is not None else x(qual, *b.values())
            return atom

        def look_value(param, qual):
            def atom(st, b, it):
                r = by_name(b[param])
                if r is None:
                    return x(qual, *b.values())
                if r == NONE:
                    return b.get('default', NONE)
                return st.heap.get((r, 'value'), ('a', r, 'value'))
            return atom

        def child(param, qual, value=False):
            def atom(st, b, it):
                me, v = b['self'], b[param]
                if is_const(v) and isinstance(cval(v), str) and me[0] == 'n':
                    last = cval(v).lower().split('.')[-1]
                    r = st.heap.get((me, '#child', last)) or (there.get('version.' + last, NONE) if me == P['version'] else NONE)
                    if not value:
                        return r
                    return b.get('default', NONE) if r == NONE else st.heap.get((r, 'value'), ('a', r, 'value'))
                return x(qual, *b.values())
            return atom

        def new_child(st, b, it):
            name, v = b.get('term', TOP), b.get('value', TOP)
            if not (is_const(name) and isinstance(cval(name), str)):
                return x('new_child', *b.values())
            last = cval(name).lower().split('.')[-1]
            n = ('n', 'Term', ('new', b['self'], last))
            st.heap[(b['self'], '#child', last)] = n
            st.heap[(n, 'value')] = C(str(cval(v)) if cval(v) is not None else None) if is_const(v) else v
            st.heap[(n, 'record_term')] = C(last)
            st.conds[n] = True
            return n

        extra = {'Term.new_child': new_child}
        for q, p in (('MetatabDoc.find_first', 'term'), ('MetatabDoc.get', 'term'), ('SectionTerm.find_first', 'term'),
                     ('SectionTerm.get_term', 'term'), ('SectionTerm.__getitem__', 'item')):
            extra[q] = look(p, q)
        for q, p in (('MetatabDoc.find_first_value', 'term'), ('MetatabDoc.get_value', 'term'), ('SectionTerm.find_first_value', 'term')):
            extra[q] = look_value(p, q)
        for q, p in (('Term.find_first', 'term'), ('Term.__getitem__', 'item'), ('Term.get', 'item')):
            extra[q] = child(p, q)
        for q, p in (('Term.find_first_value', 'term'), ('Term.get_value', 'item'), ('Term.find_value', 'term')):
            extra[q] = child(p, q, True)
        at = boundaries(prog, inline=['MetatabDoc.update_version', 'MetatabDoc.update_name', 'MetatabDoc.as_version', 'Term.__init__', 'Term.__setattr__'], extra=extra)
        at['slugify'] = lambda st, b, it: C(slug(cval(list(b.values())[0]))) if is_const(list(b.values())[0]) else x('slugify', *b.values())
        it = Interp(prog, atoms=at, cap=cap, comp_paths=True, merge_calls=False, implicit=False, ext_hook=fold,
                    observers=[lambda e, s, i: e.kind in ('HANDLER', 'RAISE')])
        it.precise = True
        it.exact_comp = True
        kids = tuple(P[n] for n in ('major', 'minor', 'patch', 'build') if 'version.' + n in there)
        it.iter_hook = lambda v, st, i: kids if v == ('a', P['version'], 'children') else None
        return it

    upd = prog.func('doc', 'MetatabDoc.update_name')
    full = dict(zip(PARTS, ('Org.com', 'My data', '2017', 'US-CA-LA', 'county', 'raw')))
    asv = next((f for f in prog.funcs.values() if f.qual == 'MetatabDoc.as_version'), None)
    items = []
    for v in VERSIONS:
        for m in MODS:
            if v is not None or m in (False, None, '+1', '9'):
                items.append(((('dataset', 'My-data'),), v, m, 'old', False))
                if asv is not None and m is not False:
                    items.append(((('dataset', 'My-data'),), v, m, None, 'as_version'))
    if asv is not None:
        items.append((tuple(full.items()), ('1', '2', '3'), '+1', None, 'as_version'))
    items.append((tuple(full.items()), ('1', '2', '3'), False, 'old', False))
    for n in PARTS:
        if n != 'dataset':
            for b in BLANKS if thorough or n in ('origin', 'variant') else BLANKS[1:2]:
                items.append((tuple((k, b if k == n else v) for k, v in full.items()), ('7',), False, 'old', False))
        items.append((tuple((k, v) for k, v in full.items() if k == 'dataset' or k == n), ('7',), False, 'old', False))
    items.append((tuple(full.items()), None, False, 'old', True))
    items.append((tuple(full.items()), ('7',), False, '', False))
    for nm in ('old', '', None, 'the-id'):
        for v in (None, ('7',)):
            items.append(((('origin', 'x'),), v, False, nm, False))

    def names(item, cap):
        parts, version, mod, name, force = item
        parts = {k: v for k, v in parts}
        f = asv if force == 'as_version' else upd
        there, heap = world(parts, version, name, 'the-id')
        it = interp(cap, there)
        bad, obs = {}, []
        label = '%s %s, version %s, change %r' % (f.qual,
            ' '.join('%s=%r' % p for p in sorted(parts.items())), '.'.join(e or 'blank' for e in version) if version else None, mod)
        ver, fails = new_version(version, mod)
        want = '-'.join(slug(str(e).replace('-', '_')) for e in [parts.get(n) for n in PARTS] + [ver] if e and str(e).strip())
        rule = 'version' if set(parts) == {'dataset'} else 'name'
        if 'dataset' not in parts:
            rule, fails = 'no-dataset', False
            want = name if name else 'the-id'
        conds = {p: True for p in P.values()}
        n = 0
        got, vers, errs = set(), set(), set()
        args = {f.params[1]: C(mod)} if f is asv else {
            'mod_version': C(mod), 'force': C(force), 'create_term': FALSE, 'report_unchanged': TRUE}
        for st, k, v in it.run(f, args, heap=heap, conds=conds):
            n += 1
            if k == 'raise':
                errs.add(v)
                continue
            g = v if f is asv else st.heap.get((P['name'], 'value'))
            got |= set(members(g)) if g is not None else {TOP}
            if f is upd and version is not None:
                vers |= set(members(st.heap.get((P['version'], 'value'), TOP)))
        if not n:
            return pack(it, [], [], undecided=[label])
        w = find_where(f)
        decided = all(is_const(g) for g in got) and all(is_const(g) for g in vers)
        if not decided:
            return pack(it, [], [], undecided=[label + ' -> ' + ' / '.join(show(g)[:150] for g in list(got) + list(vers) if not is_const(g))])
        if len(got) + bool(errs) > 1 or len(vers) > 1:
            # everything here is constant, so that a choice is one that could not be decided
            if fails or want in {cval(g) for g in got}:
                return pack(it, [], [], undecided=[label + ': ' + ' / '.join(sorted(repr(cval(g)) for g in got))])
        if fails:
            if got:
                bad[0] = Finding(rule, w, 'missing version', '%s: there is no version to change, but the name becomes %s' % (
                    label, sorted(repr(cval(g)) for g in got)))
        elif errs:
            bad[0] = Finding(rule, w, 'raise', '%s: this raises %s' % (label, ', '.join(sorted(show(e)[:40] for e in errs))))
        else:
            if {cval(g) for g in got} != {want}:
                bad[0] = Finding(rule, w, 'name', '%s: the name becomes %s, not %r' % (label, sorted(repr(cval(g)) for g in got), want))
            if f is upd and version is not None and rule == 'version' and mod is not None and {str(cval(g)) for g in vers} != {ver}:
                bad[1] = Finding(rule, w, 'version', '%s: the version becomes %s, not %r' % (label, sorted(repr(cval(g)) for g in vers), ver))
        obs.append((rule, label))
        return pack(it, list(bad.values()), obs, undecided=[])

    for r in sweep(ck, items, names, label=str, caps=(256, 64)):
        und += r['undecided']

    ck.notes.append('%d cases, %d of them not decided' % (len(items) + len(SLUGS), len(und)))
    if und:
        ck.notes.append('not decided: ' + '; '.join(und[:6]))
