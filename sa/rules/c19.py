"""C19 Unqualified top-level names equal root-qualified ones."""
from ..common import *

PASSES = 2      # of loop bodies

REGS = {'derived_terms', 'super_terms', 'term_classes', 'decl_terms', '_declared_terms', 'declared_terms'}
QUALIFIED = {'normalize_term', 'join', 'join_lc', 'qualified_term'}
# the caller of these gives a qualified name, as documented
UNQUALIFIED = {'record_term', 'record_term_lc', 'parent_term', 'parent_term_lc', 'term', 'str', 'name', 'value', 'split_term',
               'split_term_lower'}
GIVEN = {'TermParser.register_term_class', 'TermParser.unregister_term_class'}
TEXT = {'lower', 'strip', 'str', 'casefold', 'lstrip', 'rstrip', 'title'}
NAMES = {'record_term', 'record_term_lc', 'join', 'join_lc'}


def registry(v):
    if v[0] == 'a' and v[2] in REGS:
        return True
    if v[0] == 'x' and v[1].split('.')[-1] in REGS:
        return True
    return v[0] == 'G' and str(v[-1]).split('.')[-1] in REGS


def dotted_const(v):
    return is_const(v) and isinstance(cval(v), str) and '.' in cval(v)


def root_prefix(v):
    return is_const(v) and isinstance(cval(v), str) and cval(v).lower() in ('root.', 'root')


def qualified(v, conds, depth=0):
    """v is a name with a parent part, and the parent part of an unqualified one is root."""
    if depth > 12:
        return True
    ms = members(v)
    if len(ms) > 1:
        return all(qualified(m, conds, depth + 1) for m in ms)
    v = ms[0]
    if is_const(v):
        return not isinstance(cval(v), str) or '.' in cval(v)
    for c, b in conds.items():
        if b and c[0] == 'o' and c[1] == 'in' and c[2] == C('.') and strip(c[3]) == strip(v):
            return True
        if b and c[0] == 'o' and c[1] == 'startswith' and strip(c[2]) == strip(v) and any(
                is_const(w) and isinstance(cval(w), str) and '.' in cval(w) for w in walk(c[3])):
            return True
    if v[0] == 'x':
        last = v[1].split('.')[-1]
        if last in QUALIFIED:
            return True
        if last in ('sorted', 'list', 'set', 'tuple') and v[2]:
            return qualified(v[2][0], conds, depth + 1)
        return last not in UNQUALIFIED
    if v[0] == 'o':
        if v[1] in TEXT:
            return qualified(v[2], conds, depth + 1)
        if v[1] in ('+', 'fmt', 'fstr', 'join', '%', 'Mod', 'format', 'fstring', 'concat'):
            parts = flat(v)
            consts = [w for w in parts if is_const(w) and isinstance(cval(w), str)]
            if not any('.' in cval(w) for w in consts):
                return False
            if v[1] == '+' and consts and parts[0] == consts[0]:
                # a fixed parent
                return cval(parts[0]).lower().startswith('root.')
            return True
        return True
    if v[0] == 'i':
        # an entry of a table of qualified names, or a part of something
        w = v[1]
        return not (w[0] == 'o' and w[1] in ('split', 'rsplit', 'partition', 'rpartition') or
                    w[0] == 'x' and w[1].split('.')[-1] in UNQUALIFIED)
    if v[0] in ('e', 'k'):
        w = v[1]
        if any(registry(u) for u in walk(w)):
            return True
        if w[0] == 'a' or w[0] == 'p':
            return False
        if w[0] == 'i' and (w[1][0] == 'a' and w[1][2] == 'declare_dict' or w[1][0] == 'x' and w[1][1].endswith('.declare_dict')):
            return True     # the declarations of a parser, which are listed by qualified name
        return not (w[0] == 'i' and is_const(w[2]) and cval(w[2]) == 'terms')
    if v[0] in ('p', 'a'):
        return False
    return True


def strip(v):
    while v[0] == 'o' and v[1] in TEXT and len(v) > 2:
        v = v[2]
    return v


def flat(v):
    if v[0] == 'o' and v[1] == '+':
        return flat(v[2]) + flat(v[3])
    if v[0] == 'o' and v[1] in ('fmt', 'fstr', 'join', '%', 'Mod', 'format', 'fstring', 'concat'):
        return [w for a in v[2:] if isinstance(a, tuple) for w in flat(a)]
    if v[0] == 't':
        return [w for a in v[1:] for w in flat(a)]
    return [v]


def run(prog, ck, thorough):
    ck.rule('tables', 'the tables of declared and registered terms are consulted with qualified names', 5)
    ck.rule('compare', 'the qualified name of a term is compared with qualified names', 1)
    ck.rule('split', 'a name without a parent part has the parent root', 1)
    ck.rule('class', 'a term gets the class that is registered for its qualified name', 1)
    ck.rule('child', 'a child has the name of its parent as its parent part', 1)
    ck.rule('expand', 'a name is qualified before it is expanded into its derived terms', 1)
    at = boundaries(prog)

    def job(f, cap):
        findings, obs = [], []

        def bad(rule, where, construct, text, it=None):
            findings.append(Finding(rule, where, construct, '%s: %s' % (f.qual, text), it.chain() if it is not None else ()))

        def own_param(v, it):
            """A parameter of the function itself, which its callers qualify: they are analysed with it in place."""
            v = strip(v)
            return v[0] == 'p' and len(it.stack) == 1 and is_private(f)

        def named_after(v, parent):
            for w in walk(v):
                if w[0] == 'a' and w[2] in NAMES and w[1] == parent:
                    return True
                if w[0] == 'x' and w[1].split('.')[-1] in NAMES and w[2] and w[2][0] == parent:
                    return True
            return False

        def o(ev, st, it):
            if ev.kind == 'KEY' and registry(ev.args[0]):
                key = ev.args[1]
                here = it.stack[-1][0].qual
                if here in GIVEN or f.qual in GIVEN:
                    return False
                obs.append(('tables', '%s: %s[%s]' % (f.qual, show(ev.args[0])[:60], show(key)[:60])))
                if not qualified(key, st.conds) and not own_param(key, it):
                    bad('tables', ev.where, 'key', '%s is consulted with %s, which need not be qualified'
                        % (show(ev.args[0])[:60], show(key)[:80]), it)
                if 'derived_terms' in show(ev.args[0]):
                    obs.append(('expand', '%s: %s' % (f.qual, show(key)[:60])))
            elif ev.kind == 'CMP' and ev.args[0] in ('==', '!=', 'in'):
                a, b = ev.args[1], ev.args[2]
                for u, w in ((a, b), (b, a)):
                    if u[0] == 'x' and u[1].split('.')[-1] in ('join', 'join_lc', 'qualified_term') and w[0] not in ('x',):
                        ws = list(w[1:]) if w[0] == 't' else [w]
                        obs.append(('compare', '%s: %s with %s' % (f.qual, show(u)[:40], show(w)[:40])))
                        for w2 in ws:
                            if w2[0] == 'c' and isinstance(cval(w2), (tuple, frozenset)):
                                oks = all('.' in str(s) for s in cval(w2))
                            else:
                                oks = w2[0] in ('a', 'e', 'k', 'i', 'n') or qualified(w2, st.conds)
                                # a name without a parent part is given another one than root
                                if any(not bb and c[0] == 'o' and c[1] == 'in' and c[2] == C('.') and c[3] in list(walk(w2))
                                       for c, bb in st.conds.items()) and not any(
                                        is_const(z) and 'root' in str(cval(z)).lower() for z in walk(w2)) and not any(
                                        z[0] == 'x' and z[1].split('.')[-1] in QUALIFIED for z in walk(w2)):
                                    oks = False
                            if not oks and not own_param(w2, it):
                                bad('compare', ev.where, 'comparison', 'the qualified name of a term is compared with %s, which need '
                                    'not be qualified' % show(w2)[:80], it)
            elif ev.kind == 'NEW' and ev.args[1] == 'Term':
                n, cname, args, kw, via = ev.args[:5]
                kw = dict(kw)
                parent = kw.get('parent', args[7] if len(args) > 7 else NONE)
                if via[0] == 'x' and via[1].endswith('get_term_class'):
                    name = via[2][-1]
                    obs.append(('class', '%s: %s' % (f.qual, show(name)[:60])))
                    if parent != NONE:
                        if not named_after(name, parent):
                            bad('class', ev.where, 'child', 'the class of a child is looked up with %s, which is not qualified with the '
                                'name of its parent' % show(name)[:80], it)
                        elif not qualified(name, st.conds):
                            bad('class', ev.where, 'child', 'the class of a child is looked up with %s, which need not be qualified'
                                % show(name)[:80], it)
                    else:
                        given = args[0] if args else kw.get('term')
                        if given is not None and strip(name) != strip(given) and not (set(walk(strip(given))) & set(walk(strip(name)))):
                            bad('class', ev.where, 'name', 'the class is looked up with %s, which is not the name of the term'
                                % show(name)[:80], it)
                elif via[0] == 'C' and (parent != NONE or f.qual in ('SectionTerm.new_term', 'Term.new_child', 'Term.get_or_new_child')):
                    bad('class', ev.where, 'class', 'a term is created without looking up its class', it)
            elif ev.kind == 'CALL' and ev.args[0].endswith('.term_is') and f.qual == 'MetatabDoc.find':
                v = dict(ev.args[1]).get('v')
                if v is not None and v[0] == 'o':
                    for w in walk(v):
                        if w[0] == 'o' and w[1] == '+' and is_const(w[2]) and isinstance(cval(w[2]), str) and not root_prefix(w[2]):
                            bad('compare', ev.where, 'prefix', 'an unqualified name is looked for as %s' % show(v)[:80], it)
            elif ev.kind == 'EMIT' and f.qual == 'TermParser.super_terms':
                v, k = ev.args[1], ev.args[2]
                obs.append(('tables', 'super terms'))
                if not qualified(v, st.conds) or v[0] in ('i', 'a', 'o') and not any(
                        w[0] == 'x' and w[1].split('.')[-1] in QUALIFIED for w in walk(v)) and not any(
                        root_prefix(w) for w in walk(v)):
                    bad('tables', ev.where, 'super', 'a term is listed under the super term %s, which need not be qualified' % show(v)[:60], it)
            return ev.kind == 'STORE'

        it = Interp(prog, atoms=at, cap=cap, observers=[o])
        me = ('p', f.params[0]) if f.params else None
        here = (f.module.path, f.qual, f.node.lineno)
        for st, k, v in it.run(f):
            if k != 'return' or not isinstance(v, tuple):
                continue
            if f.qual == 'Term.split_term':
                nodot = [c for c, b in st.conds.items() if c[0] == 'o' and c[1] == 'in' and c[2] == C('.') and not b]
                if nodot and v[0] == 't' and len(v) == 3:
                    obs.append(('split', 'a name without a parent part'))
                    if not (is_const(v[1]) and str(cval(v[1])).lower() == 'root'):
                        bad('split', here, 'root', 'the parent of a name without a parent part is %s' % show(v[1])[:60])
                elif not nodot:
                    obs.append(('split', 'a name with a parent part'))
            elif f.qual == 'Term.normalize_term':
                obs.append(('split', 'normalize_term'))
                if not any(w[0] == 'x' and w[1].split('.')[-1] in ('split_term', 'split_term_lower') for w in walk(v)) and not any(
                        root_prefix(w) for w in walk(v)) and not any(c[0] == 'o' and c[1] == 'in' and c[2] == C('.') and b
                                                                     for c, b in st.conds.items()):
                    bad('split', here, 'normalize', 'a name is normalized to %s, which need not be qualified' % show(v)[:80])
            elif f.qual == 'Term.term.setter':
                stores = [e for e in st.events if e.kind == 'STORE' and e.args[0] == me]
                par = ('a', me, 'parent')
                has = st.conds.get(par) is True or st.conds.get(('o', 'isnone', par)) is False
                root = any(b and c[0] == 'o' and c[1] == '==' and C('root') in c[2:4] for c, b in st.conds.items())
                notroot = any(not b and c[0] == 'o' and c[1] == '==' and C('root') in c[2:4] for c, b in st.conds.items())
                last = [e.args[2] for e in stores if e.args[1] == 'parent_term']
                obs.append(('child', 'a path of the term setter'))
                lacks = st.conds.get(par) is False or st.conds.get(('o', 'isnone', par)) is True
                if (has or not lacks) and not notroot and not (last and named_after(last[-1], par)):
                    bad('child', here, 'parent', 'a child whose name has no parent part does not get the name of its parent')
        return pack(it, findings, obs)

    sweep(ck, entries(prog, True), job, label=lambda f: f.qual, caps=(200, 24))
