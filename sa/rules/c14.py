"""C14 Every row and cell of the input is parsed."""
import re

from ..common import *
from ..total import *

TERMS = {'Term', 'SectionTerm', 'RootSectionTerm'}
SPECIAL = {'section', 'header', 'include', 'declare', 'root', 'root.section', 'root.header', 'root.include', 'root.declare',
           'root.root'}
STRIPS = {'strip', 'lstrip', 'rstrip', 'str', 'title', 'lower'}


def is_len(v, row):
    return v[0] == 'o' and v[1] == 'len' and v[2] == row or v[0] == 'x' and v[1] == 'len' and v[2] and v[2][0] == row


def num(v):
    return cval(v) if is_const(v) and isinstance(cval(v), int) and not isinstance(cval(v), bool) else None


def at_most(conds, row, n):
    """A condition of the path says that row has at most n elements."""
    for c, b in conds:
        if c == row and not b:
            return True
        if is_len(c, row) and not b:
            return True
        if c[0] != 'o' or len(c) < 4:
            if c[0] == 'o' and c[1] == 'slice' and c[2] == row and not b and num(c[3]) is not None and num(c[3]) <= n and c[4] == NONE:
                return True
            continue
        op, a, d = c[1], c[2], c[3]
        if op == 'slice' and a == row and not b and num(d) is not None and num(d) <= n:
            return True
        hi = None
        if is_len(d, row) and num(a) is not None:
            if op == '<' and not b:             # not k < len
                hi = num(a)
            elif op == '<=' and not b:          # not k <= len
                hi = num(a) - 1
            elif op == '==' and b:
                hi = num(a)
        if is_len(a, row) and num(d) is not None:
            if op == '<' and b:
                hi = num(d) - 1
            elif op == '<=' and b:
                hi = num(d)
            elif op == '==' and b:
                hi = num(d)
        if hi is not None and hi <= n:
            return True
    return False


def base_text(v):
    while v[0] == 'o' and v[1] in STRIPS and len(v) > 2:
        v = v[2]
    return v


def comment_re(p):
    """The pattern matches comments (and perhaps blank text) only."""
    p = p.lstrip('^')
    for pre in ('\\s*', '[ \\t]*', '[\\s]*', ''):
        if p.startswith(pre):
            rest = p[len(pre):]
            if rest[:1] == '#' or rest.startswith('\\#') or rest.startswith('[#]'):
                return True
    return False


def says_comment(conds, line):
    """A condition of the path says that the line is a comment."""
    for c, b in conds:
        while c[0] == 'o' and c[1] in ('isnone', 'not', 'bool'):
            b = not b if c[1] != 'bool' else b
            c = c[2]
        if c[0] == 'x' and c[1] == 'bool' and c[2]:
            c = c[2][0]
        if not b:
            continue
        if c[0] == 'o' and c[1] == 'startswith' and base_text(c[2]) == line and is_const(c[3]) and str(cval(c[3])).startswith('#'):
            return True
        if c[0] == 'o' and c[1] == '==' and any(is_const(y) and cval(y) == '#' for y in c[2:4]) and line in list(walk(c)):
            return True
        if c[0] == 'x' and c[1] in ('re.match', 're.search') and len(c[2]) > 1 and base_text(c[2][1]) == line and is_const(c[2][0]) and (
                c[1] == 're.match' or cval(c[2][0]).startswith('^')) and comment_re(cval(c[2][0])):
            return True
        if c[0] == 'x' and c[1].endswith('.match') and c[1] != 're.match' and line in list(walk(c)) and '#' in show(c):
            return True
    return False


def direct(v, base):
    """v is base, or base wrapped in operations (not an attribute or an element of it)."""
    if v == base:
        return True
    return v[0] in ('o', 'x', 't', 'phi') and any(direct(w, base) for w in (v[1] if v[0] == 'phi' else walk_children(v)))


def walk_children(v):
    for a in v[1:]:
        if isinstance(a, tuple) and a:
            if isinstance(a[0], str):
                yield a
            else:
                for b in a:
                    if isinstance(b, tuple) and b and isinstance(b[0], str):
                        yield b


def lossy(v, line):
    """An operation of v that changes or drops text of the line, other than the separators the format has."""
    for w in walk(v):
        if w[0] == 'o' and len(w) > 2 and line in list(walk(w[2])):
            args = [cval(a) if is_const(a) else Ellipsis for a in w[3:]]
            n = w[1]
            if n in ('lower', 'upper', 'title', 'capitalize', 'swapcase', 'casefold'):
                return 'in another case'
            if n in ('split', 'rsplit', 'partition', 'rpartition') and args and isinstance(args[0], str) and args[0] not in (':', '|'):
                return 'split at %r' % args[0]
            if n in ('rsplit', 'rpartition') and args and args[0] == ':':
                return 'split at the last colon'
            if n in ('split', 'rsplit') and not args:
                return 'split at blanks'
            if n == 'replace' and len(args) > 1 and all(isinstance(a, str) for a in args[:2]) and tuple(args[:2]) != ('\\|', '|') and (
                    '\0' not in args[0] + args[1]):
                return 'with %r replaced' % args[0]
            if n in ('strip', 'lstrip', 'rstrip') and args and isinstance(args[0], str) and args[0].strip() and not (
                    n == 'lstrip' and args[0].strip() == '='):
                return 'without %r' % args[0]
            if n in ('removeprefix', 'removesuffix') and args and isinstance(args[0], str) and args[0].strip('='):
                return 'without %r' % args[0]
            if n == 'slice' and any(isinstance(a, int) and not isinstance(a, bool) and a != 0 for a in args[1:2]) and w[2][0] == 'o' and (
                    w[2][1] in STRIPS or w[2] == line):
                return 'cut off'
            if n == 'slice' and w[2] == line and any(isinstance(a, int) for a in args[1:2]):
                return 'cut off'
        if w[0] == 'x' and w[1] == 're.sub' and len(w[2]) > 2 and line in list(walk(w[2][2])) and is_const(w[2][0]):
            pat = cval(w[2][0])
            if isinstance(pat, str) and not pat.startswith('^') and '|' not in pat:
                return 'with %r replaced' % pat
            if isinstance(pat, str) and pat.startswith('^') and '=' not in pat and pat.strip('^\\s*+'):
                return 'with %r replaced' % pat
        if w[0] == 'x' and w[1] == 're.split' and len(w[2]) > 1 and line in list(walk(w[2][1])) and is_const(w[2][0]):
            pat = cval(w[2][0])
            if isinstance(pat, str) and '|' not in pat and ':' not in pat:
                return 'split at %r' % pat
    return None


def blank_or_comment(conds, cell):
    """A condition of the path says that the cell is blank or a comment."""
    for c, b in conds:
        t = base_text(c)
        if t == cell and not b:
            return True
        if c[0] == 'o' and c[1] == 'isnone' and c[2] == cell and b:
            return True
        if c[0] == 'o' and c[1] == 'startswith' and base_text(c[2]) == cell and b and is_const(c[3]):
            s = cval(c[3])
            if isinstance(s, str) and s.startswith('#'):
                # text that starts with it is a comment
                return True
        if c[0] == 'o' and c[1] == '==' and b:
            for u, w in ((c[2], c[3]), (c[3], c[2])):
                if base_text(u) == cell and is_const(w) and isinstance(cval(w), str) and not cval(w).strip():
                    return True
                if u[0] in ('i', 'o') and cell in walk(u) and w == C('#') and (u[0] == 'i' and u[2] == C(0) and base_text(u[1]) == cell or
                                                                            u[0] == 'o' and u[1] == 'slice' and base_text(u[2]) == cell):
                    return True
        if c[0] == 'o' and c[1] == 'isspace' and c[2] == cell and b:
            return True
        if c[0] == 'x' and c[1] in ('re.match', 're.fullmatch') and len(c[2]) > 1 and b and base_text(c[2][1]) == cell and is_const(c[2][0]):
            if comment_re(cval(c[2][0])):
                return True
        if c[0] == 'o' and c[1] == 'in' and b and base_text(c[2]) == cell:
            vals = [cval(w) for w in c[3][1:] if is_const(w)] if c[3][0] == 't' else list(cval(c[3])) if is_const(c[3]) and isinstance(
                cval(c[3]), (tuple, list, set, frozenset)) else None
            if vals is not None and all(w is None or isinstance(w, str) and not w.strip() for w in vals):
                return True
    return False


def blank(conds, cell):
    """A condition of the path says that the text of the cell is empty."""
    for c, b in conds:
        if c[0] == 'o' and c[1] in ('strip', 'str') and not b:
            w = c
            text = False
            while w[0] == 'o' and w[1] in ('strip', 'str') and len(w) > 2:
                text = text or w[1] == 'str'
                w = w[2]
            if w == cell and (text or c[1] == 'strip'):
                return True
        if c[0] == 'o' and c[1] == 'isnone' and c[2] == cell and b:
            return True
        if c[0] == 'o' and c[1] == '==' and b:
            for u, w in ((c[2], c[3]), (c[3], c[2])):
                if base_text(u) == cell and is_const(w) and isinstance(cval(w), str) and not cval(w).strip():
                    return True
                if is_len(u, cell) and w == C(0) or u[0] == 'o' and u[1] == 'len' and base_text(u[2]) == cell and w == C(0):
                    return True
        if c[0] == 'o' and c[1] == 'in' and b and base_text(c[2]) == cell and c[3][0] == 't' and all(
                is_const(w) and (cval(w) is None or isinstance(cval(w), str) and not cval(w).strip()) for w in c[3][1:]):
            return True
    return False


def linear(v):
    """(index value, offset) of index + constant."""
    off = 0
    while v[0] == 'o' and v[1] in ('+', 'Sub') and len(v) == 4:
        if num(v[3]) is not None:
            off += num(v[3]) if v[1] == '+' else -num(v[3])
            v = v[2]
        elif num(v[2]) is not None and v[1] == '+':
            off += num(v[2])
            v = v[3]
        else:
            return None
    if v[0] == 'o' and v[1] == 'idx' and len(v) >= 3:
        s = num(v[3]) if len(v) > 3 else 0
        if s is None:
            return None
        return v[2], s + off
    return None


def indices(v):
    """The largest parts of v that are an index plus a constant."""
    if not isinstance(v, tuple):
        return []
    l = linear(v) if v and isinstance(v[0], str) else None
    if l is not None:
        return [l]
    return [i for w in v for i in indices(w)]


def special(conds, t, allowed=SPECIAL, exact=lambda v: None):
    """The path knows that the term is one of the special ones (of allowed)."""
    for c, b in conds:
        if not b or t not in list(walk(c)):
            continue
        if c[0] == 'x' and c[1].endswith('.term_is') and len(c[2]) > 1:
            names = [c[2][1]] if is_const(c[2][1]) else list(c[2][1][1:]) if c[2][1][0] == 't' else list(exact(c[2][1]) or ())
        elif c[0] == 'o' and c[1] in ('==', 'in') and not any(w[0] == 'a' and 'parent' in w[2] or w[0] == 'x' and 'parent' in w[1] for w in walk(c)):
            names = []
            for w in c[2:4]:
                if is_const(w):
                    names += [C(s) for s in cval(w)] if isinstance(cval(w), (tuple, list, set, frozenset)) else [w]
                elif w[0] == 't':
                    names += list(w[1:])
                else:
                    names += list(exact(w) or ())
        else:
            continue
        if names and all(is_const(w) and isinstance(cval(w), str) and cval(w).lower() in allowed for w in names):
            return True
    return False


def run(prog, ck, thorough):
    ck.rule('rows', 'only rows whose first cell is blank or a comment are skipped, and the others yield a term', 1)
    ck.rule('value', 'the term of a row gets the second cell, the cells after it and the number of the row', 1)
    ck.rule('cells', 'each cell after the second that is not blank yields a child with the cell, at its column', 1)
    ck.rule('nested', 'the terms of an included document are all passed on', 1)
    ck.rule('term', 'a term keeps the value and the arguments it is created with', 1)
    ck.rule('passed-on', 'the parser and the document take in every term', 1)
    ck.rule('lines', 'the lines format passes on each line that is not a comment, with all of its columns', 1)
    at = boundaries(prog)
    gens = {q: prog.func(m, q) for m, q in (('metatab.parser', 'TermParser.generate_terms'), ('metatab.parser', 'TermParser.__iter__'),
                                            ('metatab.doc', 'MetatabDoc.load_terms'), ('metatab.terms', 'Term.__init__'),
                                            ('metatab.rowgen', 'MetatabRowGenerator.__iter__'),
                                            ('metatab.rowgen', 'TextRowGenerator.__iter__'),
                                            ('metatab.rowgen', 'TextRowGenerator.__init__'))}
    sub = {'TermParser.generate_terms', 'rec:TermParser.generate_terms'}

    def job(item, cap):
        qual, later = item
        f = gens[qual]
        findings, obs = [], []
        here = (f.module.path, f.qual, f.node.lineno)

        def bad(rule, construct, text, where=None):
            findings.append(Finding(rule, where or here, construct, '%s: %s' % (qual, text)))

        def ob(rule, what):
            obs.append((rule, '%s: %s' % (qual, what)))

        def track(ev, st, it):
            return ev.kind in KINDS or ev.kind == 'CALL'

        # an iteration may start with what the ones before it left behind
        it = Interp(prog, atoms=at, cap=cap, observers=[track], comp_paths=True, merge_calls=False,
                    opaque=TERMS if qual == 'TermParser.generate_terms' else (),
                    havoc=(lambda s, i, itv, elems: i.loop_depth <= 1 and len(i.stack) <= 1) if later else None)
        ps = []
        for st, k, v in it.run(f):
            p = Path(it, st, k, v)
            p.events = list(st.events)
            ps.append(p)
        self_ = ('p', f.params[0])

        def between(p, e):
            """The events of one iteration."""
            i = p.events.index(e)
            out = []
            for g in p.events[i + 1:]:
                if g.kind == 'ITEREND' and g.args[:2] == e.args[:2]:
                    break
                out.append(g)
            return out

        def elems(v):
            return [w for w in walk(v) if w[0] == 'e']

        def is_nested(v):
            return any(w[0] == 'x' and w[1] in sub for w in walk(v))

        def loop_ok(p, e, what, rule):
            ok = True
            if partial_iter(e.args[0], p.st):
                bad(rule, what, 'goes over a part of the %s only' % what, e.where)
                ok = False
            for w in walk(e.args[0]):
                if w[0] in 'ox' and w[1] == 'zip' and not any('count' in show(u) or 'range' in show(u) for u in walk(w)):
                    bad(rule, what, 'pairs the %s with something that may be shorter' % what, e.where)
                    ok = False
            return ok

        def term_value(p, v, cell):
            """v is the cell, stripped at most."""
            return all(base_text(m) == cell or m[0] == 'o' and m[1] in STRIPS and base_text(m) == cell for m in members(v))

        if qual == 'TermParser.generate_terms':
            nrows = 0
            for p in ps:
                conds = p.conds()
                if p.kind == 'raise':
                    continue
                rows = [e for e in p.events if e.kind == 'ITER' and e.args[2] != 'comp' and not is_nested(e.args[0]) and not any(
                    w[0] == 'n' and w[1] in TERMS for w in walk(e.args[0])) and e.where[1].startswith(qual)]
                for e in p.events:
                    if e.kind == 'ITER' and is_nested(e.args[0]) and e.args[2] != 'comp':
                        ob('nested', 'terms of an include, line %d' % e.where[2])
                        loop_ok(p, e, 'terms of the include', 'nested')
                        if not any(g.kind == 'YIELD' and g.args[0] == e.args[1] for g in between(p, e)):
                            bad('nested', 'include', 'a term of the included document is not passed on', e.where)
                    elif e.kind == 'BREAK' and is_nested(e.args[1]):
                        bad('nested', 'include', 'stops before the end of the included document', e.where)
                if not rows:
                    continue
                e = rows[0]
                row = None
                for w in elems(e.args[1]):
                    row = w
                    break
                if row is None:
                    continue
                nrows += 1
                if not loop_ok(p, e, 'rows', 'rows'):
                    continue
                cut = p.cut_short(lambda v: row in list(walk(v)))
                if cut is not None:
                    bad('rows', 'end', 'stops before the last row', cut.where)
                    continue
                first = ('i', row, C(0))
                ys = [g for g in between(p, e) if g.kind == 'YIELD']
                ob('rows', 'a path of a row')
                if not ys:
                    if not (at_most(conds, row, 0) or blank_or_comment(conds, first)):
                        why = [show(c) for c, b in conds if row in list(walk(c))]
                        bad('rows', 'skip', 'a row is skipped although its first cell is neither blank nor a comment', e.where)
                    continue
                t = ys[0].args[0]
                if t[0] != 'n':
                    if not (t[0] == 'x' and any(b and c[0] == 'x' and c[1].endswith('.term_is') and c[2][1:] and is_const(c[2][1]) and
                                               cval(c[2][1]).lower() in ('section', 'root.section') for c, b in conds)):
                        bad('rows', 'other', 'something else than the term of the row is yielded for it', ys[0].where)
                    continue

                def field(t, n):
                    return p.st.heap.get((t, '#arg:' + n))

                # the cells of the row
                ob('value', 'term of line %d' % ys[0].where[2])
                val = field(t, 'value')
                if val is not None:
                    for m in members(val):
                        cell = [w for w in walk(m) if w[0] == 'i' and w[2] == C(1) and row in list(walk(w[1]))]
                        if cell:
                            if not term_value(p, m, cell[0]):
                                bad('value', 'value', 'the term gets %s instead of the second cell' % show(m)[:80], ys[0].where)
                        elif is_const(m) and not cval(m) and (at_most(conds, row, 1) or any(
                                g.kind == 'HANDLER' and 'IndexError' in str(g.args) for g in p.events) or blank(conds, ('i', row, C(1)))):
                            pass
                        elif m[0] == 'x' and m[1] == 'next' and row in list(walk(m)):
                            pass
                        else:
                            bad('value', 'value', 'the term gets %s although the row may have a second cell' % show(m)[:80], ys[0].where)
                args = field(t, 'term_args')
                argv = None
                if args is not None:
                    for m in members(args):
                        if m[0] == 'o' and m[1] == 'slice' and m[2] == row:
                            if num(m[3]) != 2 or (m[4] != NONE and not is_len(m[4], row)) or (len(m) > 5 and m[5] not in (NONE, C(1))):
                                bad('value', 'args', 'the arguments are %s, not the cells from the third one on' % show(m)[:80], ys[0].where)
                            argv = m
                        elif m[0] == 'n' and any(g.kind == 'ITER' and g.args[2] == 'comp' and g.args[0][0] == 'o' and
                                                 g.args[0][1] == 'slice' and g.args[0][2] == row and num(g.args[0][3]) == 2
                                                 for g in p.events):
                            g = next(g for g in p.events if g.kind == 'ITER' and g.args[2] == 'comp' and g.args[0][0] == 'o' and
                                     g.args[0][1] == 'slice' and g.args[0][2] == row)
                            if not any(h.kind == 'EMIT' and h.args[0] == m for h in between(p, g)):
                                bad('value', 'args', 'a cell is left out of the arguments', g.where)
                        elif at_most(conds, row, 2) or any(g.kind == 'ITERNONE' and row in list(walk(g.args[0])) for g in p.events):
                            pass
                        elif row in list(expand(it, p.st, m)) and not partial_iter(m, p.st):
                            pass
                        else:
                            bad('value', 'args', 'the arguments are %s although the row may have more cells' % show(m)[:80], ys[0].where)
                else:
                    argv = None
                rown = field(t, 'row')
                ln = linear(rown) if rown is not None else None
                if rown is None or is_const(rown) and rown != C(1):
                    bad('value', 'row', 'the term does not get the number of its row', ys[0].where)
                elif ln is not None and ln[1] != 1:
                    bad('value', 'row', 'the row number of the term is off by %d' % (ln[1] - 1), ys[0].where)
                elif ln is not None and ('e', ln[0]) != row:
                    bad('value', 'row', 'the row number counts something else than the rows', ys[0].where)
                if special(conds, t, exact=lambda v: it.exact(p.st, v)):
                    continue
                # the other cells
                ob('cells', 'term of line %d' % ys[0].where[2])

                def is_args(v):
                    ws = list(walk(v))
                    return ('a', t, 'args') in ws or any(w[0] == 'o' and w[1] == 'slice' and w[2] == row for w in ws) or (
                        args is not None and args[0] != 'c' and args in ws)
                loops = [g for g in between(p, e) if g.kind in ('ITER', 'ITERNONE') and is_args(g.args[0]) and g.args[-1] != 'comp']
                if not loops:
                    comps = [g for g in between(p, e) if g.kind in ('ITER', 'ITERNONE') and is_args(g.args[0]) and g.args[-1] == 'comp' or
                             g.kind == 'ITERNONE' and is_args(g.args[0])]
                    later = [g for g in comps if p.events.index(g) > p.events.index(ys[0])]
                    for g in later:
                        # the cells are collected first, and the collection is gone over
                        if g.kind == 'ITERNONE' or not loop_ok(p, g, 'cells', 'cells'):
                            continue
                        cell = next((w for w in elems(g.args[1]) if is_args(w)), None)
                        put = [h for h in between(p, g) if h.kind == 'EMIT']
                        if not put:
                            if cell is not None and not blank(conds, cell):
                                bad('cells', 'skip', 'a cell is skipped although it is not blank', g.where)
                            continue
                        into = put[0].args[0]
                        after = [h for h in p.events[p.events.index(g):] if h.kind in ('ITER', 'ITERNONE') and h is not g and into in list(walk(h.args[0]))]
                        if not after:
                            bad('cells', 'loop', 'the cells of the row are collected but not gone over', ys[0].where)
                        for h in after:
                            if h.kind == 'ITER' and h.args[2] != 'comp' and loop_ok(p, h, 'cells', 'cells') and not any(
                                    y.kind == 'YIELD' for y in between(p, h)):
                                bad('cells', 'skip', 'a cell is skipped although it is not blank', h.where)
                    if not later and not (at_most(conds, row, 2) or any(not b and c == ('a', t, 'args') for c, b in conds)):
                        bad('cells', 'loop', 'the cells of the row are not gone over', ys[0].where)
                    continue
                for g in loops:
                    if g.kind == 'ITERNONE':
                        continue
                    if not loop_ok(p, g, 'cells', 'cells'):
                        continue
                    sl = [w for w in walk(g.args[0]) if w[0] == 'o' and w[1] == 'slice']
                    cut = [h for h in p.events if h.kind in ('BREAK',) and h.args[1] == g.args[1]]
                    if cut:
                        bad('cells', 'end', 'stops before the last cell', cut[0].where)
                        continue
                    cell = None
                    for w in elems(g.args[1]):
                        if is_args(w):
                            cell = w
                            break
                    if cell is None:
                        for w in walk(g.args[1]):
                            if w[0] == 'i' and is_args(w[1]):
                                cell = w
                                break
                    ch = [h for h in between(p, g) if h.kind == 'YIELD']
                    if cell is None:
                        continue
                    if not ch:
                        if not blank(conds, cell):
                            bad('cells', 'skip', 'a cell is skipped although it is not blank', g.where)
                        continue
                    c = ch[0].args[0]
                    if c[0] != 'n' or field(c, 'value') is None:
                        continue
                    if not term_value(p, field(c, 'value'), cell):
                        bad('cells', 'value', 'the child gets %s instead of the cell' % show(field(c, 'value'))[:80], ch[0].where)
                    if field(c, 'parent') != t:
                        bad('cells', 'parent', 'the child of a cell does not get the term of the row as its parent', ch[0].where)
                    col, nm = field(c, 'col'), field(c, 'term')
                    l = linear(col) if col is not None else None
                    if l is not None and l[1] != 2:
                        bad('cells', 'col', 'the column of the child is off by %d' % (l[1] - 2), ch[0].where)
                    elif col is None or is_const(col):
                        bad('cells', 'col', 'the child does not get its column', ch[0].where)
                    for w, what in ((col, 'column'), (nm, 'name')):
                        if w is not None and any(y[0] in 'xo' and y[1].split('.')[-1] in ('index', 'find', 'rindex', 'rfind') and
                                                 cell in walk(y) for y in walk(w)):
                            bad('cells', what, 'the %s of the child is that of the first cell with the same text' % what, ch[0].where)
                    ix = indices(nm) if nm is not None else []
                    if nm is None or is_const(nm):
                        bad('cells', 'name', 'the name of the child does not have its column', ch[0].where)
                    elif ix and not any(i[1] == 0 for i in ix):
                        bad('cells', 'name', 'the column in the name of the child is off by %d' % ix[0][1], ch[0].where)
                    if field(c, 'row') != rown:
                        bad('cells', 'row', 'the child does not get the row number of its row', ch[0].where)
            if not nrows:
                bad('rows', 'loop', 'the rows are not gone over')

        elif qual in ('TermParser.__iter__', 'MetatabDoc.load_terms'):
            n = 0
            for p in ps:
                if p.kind == 'raise':
                    continue
                conds = p.conds()
                loops = [e for e in p.events if e.kind == 'ITER' and e.args[2] != 'comp' and (
                    is_nested(e.args[0]) if qual == 'TermParser.__iter__' else direct(e.args[0], ('p', f.params[1])))]
                for e in loops[:1]:
                    n += 1
                    ob('passed-on', 'a path of a term')
                    if not loop_ok(p, e, 'terms', 'passed-on'):
                        continue
                    if any(g.kind == 'BREAK' and g.args[1] == e.args[1] for g in p.events):
                        bad('passed-on', 'end', 'stops before the last term', e.where)
                        continue
                    t = (elems(e.args[1]) or [e.args[1]])[0]
                    body = between(p, e)

                    def calls(name):
                        return any(g.kind == 'CALL' and g.args[0].split('.')[-1] == name and any(v == t for _, v in g.args[1][1:])
                                   for g in body)

                    def kind(*names):
                        return special(conds, t, set(names) | {'root.' + n for n in names}, lambda v: it.exact(p.st, v))
                    if qual == 'MetatabDoc.load_terms':
                        if kind('root'):
                            continue
                        if kind('section'):
                            if not calls('add_section'):
                                bad('passed-on', 'section', 'a section is not added to the document', e.where)
                            continue
                        child = any(not b and c[0] == 'o' and c[1] == '==' and C('root') in c[2:4] and t in list(walk(c))
                                    for c, b in conds)
                        if not child and not calls('add_term'):
                            bad('passed-on', 'term', 'a top level term is not added to the document', e.where)
                        continue
                    if kind('header'):
                        continue
                    declared = any(b and c[0] == 'o' and c[1] in ('==', 'in') and C('declare') in list(walk(c)) and t in list(walk(c))
                                   for c, b in conds)
                    if not declared and not any(g.kind == 'YIELD' and g.args[0] == t for g in body):
                        bad('passed-on', 'yield', 'a term is not passed on', e.where)
                    if kind('section', 'root'):
                        continue
                    if not calls('add_child'):
                        bad('passed-on', 'child', 'a term is not added to the children of its parent', e.where)
                    child = any(not b and c[0] == 'o' and c[1] == '==' and C('root') in c[2:4] and t in list(walk(c)) for c, b in conds)
                    if not child and not calls('add_term'):
                        bad('passed-on', 'term', 'a top level term is not added to its section', e.where)
            if not n:
                bad('passed-on', 'loop', 'the terms are not gone over')

        elif qual == 'Term.__init__':
            val, targs = ('p', 'value'), ('p', 'term_args')
            for p in ps:
                if p.kind == 'raise':
                    continue
                conds = p.conds()
                ob('term', 'a path')
                got = p.st.heap.get((self_, 'value'))
                if got is None:
                    bad('term', 'value', 'the value is not set')
                else:
                    for m in members(got):
                        if base_text(m) == val:
                            continue
                        if m == NONE or m == C(''):
                            none = any(c == ('o', 'isnone', val) and b or c[0] == 'o' and c[1] in ('==', 'is') and b and val in c[2:4] and
                                       (C('') in c[2:4] or FALSE in c[2:4] or NONE in c[2:4]) for c, b in conds) or blank(conds, val)
                            none = none or any(c[0] == 'o' and c[1] in ('in', '==', 'is') and b and c[2] == val for c, b in conds)
                            if none:
                                continue
                        bad('term', 'value', 'the value is %s although the term is created with one' % show(m)[:80])
                lst = p.st.heap.get((self_, 'args'))
                if lst is None:
                    bad('term', 'args', 'the arguments are not set')
                    continue
                for m in members(lst):
                    if m == targs or m[0] == 'x' and m[1] in ('list', 'tuple') and m[2] == (targs,):
                        continue
                    if partial_iter(m, p.st):
                        bad('term', 'args', 'the term gets a part of its arguments only')
                        continue
                    its = [g for g in p.events if g.kind == 'ITER' and targs in list(walk(g.args[0]))]
                    for g in its:
                        if not loop_ok(p, g, 'arguments', 'term'):
                            continue
                        put = [h for h in between(p, g) if h.kind == 'EMIT' or h.kind == 'MUT' and h.args[1] == 'append']
                        if not put:
                            bad('term', 'args', 'an argument is left out', g.where)
                        elif not any(g.args[1] == base_text(w) for h in put for a in h.args if isinstance(a, tuple) for w in (
                                [a] if a and isinstance(a[0], str) else list(a))if isinstance(w, tuple) and w and isinstance(w[0], str)):
                            bad('term', 'args', 'an argument is changed', put[0].where)
            for par in ('row', 'col'):
                for p in ps:
                    if p.kind != 'raise' and p.st.heap.get((self_, par)) != ('p', par):
                        bad('term', par, 'the %s the term is created with is not kept' % par)
                        break

        elif qual == 'MetatabRowGenerator.__iter__':
            for p in ps:
                if p.kind == 'raise':
                    continue
                for e in p.events:
                    if e.kind == 'ITER' and e.args[2] != 'comp':
                        ob('rows', 'row generator')
                        loop_ok(p, e, 'rows', 'rows')
                        row = (elems(e.args[1]) or [e.args[1]])[0]
                        if not any(g.kind == 'YIELD' and row in list(expand(it, p.st, g.args[0])) for g in between(p, e)):
                            bad('rows', 'generator', 'a row is not passed on', e.where)
                    elif e.kind == 'BREAK':
                        bad('rows', 'generator', 'stops before the last row', e.where)

        elif qual == 'TextRowGenerator.__iter__':
            n = 0
            for p in ps:
                if p.kind == 'raise':
                    continue
                conds = p.conds()
                loops = [e for e in p.events if e.kind == 'ITER' and e.args[2] != 'comp' and any(
                    w == self_ for w in walk(e.args[0]))]
                for e in loops[:1]:
                    n += 1
                    ob('lines', 'a path of a line')
                    if not loop_ok(p, e, 'lines', 'lines'):
                        continue
                    if any(g.kind in ('BREAK',) and g.args[1] == e.args[1] for g in p.events):
                        bad('lines', 'end', 'stops before the last line', e.where)
                        continue
                    line = (elems(e.args[1]) or [e.args[1]])[0]
                    ys = [g for g in between(p, e) if g.kind == 'YIELD']
                    comment = says_comment(conds, line)
                    if not ys:
                        bad('lines', 'skip', 'a line is skipped, so it is not read or not counted' if not comment else
                            'a comment line is skipped, so the rows after it are counted wrong', e.where)
                        continue
                    if len(ys) > 1:
                        bad('lines', 'rows', 'a line becomes more than one row', ys[1].where)
                        continue
                    v = ys[0].args[0]
                    if comment:
                        cells = [w for w in expand(it, p.st, v) if line in list(walk(w))]
                        if any(w[0] == 'o' and w[1] in ('strip', 'lstrip', 'slice', 'replace', 'removeprefix') and len(w) > 3 and line in list(walk(w[2])) and
                               not (w[1] in ('strip', 'lstrip') and is_const(w[3]) and (cval(w[3]) is None or '#' not in str(cval(w[3]))))
                               for c in cells for w in walk(c)):
                            bad('lines', 'comment', 'a comment is passed on as something else', ys[0].where)
                        continue
                    cells = [w for w in expand(it, p.st, v) if line in list(walk(w))]
                    if cells and all(base_text(w) == line or w[0] in ('t', 'r') for w in cells) and not any(
                            ':' in show(c) for c, b in conds if line in list(walk(c))):
                        bad('lines', 'split', 'a line that is not a comment is not split at the colon', ys[0].where)
                    parts = [v] + [a for g in between(p, e) if g.kind in ('EMIT', 'MUT', 'ITER') for a in g.args if isinstance(a, tuple) and a]
                    for a in parts:
                        for b in ([a] if isinstance(a[0], str) else [y for y in a if isinstance(y, tuple) and y and isinstance(y[0], str)]):
                            how = None
                            for w in expand(it, p.st, b):
                                how = how or lossy(w, line)
                            if how:
                                bad('lines', 'text', 'the text of the line is passed on %s' % how, ys[0].where)
                    if line not in list(expand(it, p.st, v)) and not any(
                            g.kind == 'ITERNONE' or g.kind == 'ITER' and line in list(walk(g.args[0])) for g in between(p, e)):
                        bad('lines', 'row', 'the row does not have the text of the line', ys[0].where)
                    for g in between(p, e):
                        if g.kind == 'ITER' and g.args[2] == 'comp' and line in list(walk(g.args[0])):
                            if partial_iter(g.args[0], p.st):
                                bad('lines', 'columns', 'a part of the columns is left out', g.where)
                            put = [h for h in between(p, g) if h.kind == 'EMIT']
                            if not put:
                                bad('lines', 'columns', 'a column is left out', g.where)
                        coll = g.args[0] if g.kind in ('ITER', 'ITERNONE') else None
                        for w in walk(coll) if coll is not None else ():
                            if w[0] == 'o' and w[1] == 'split' and C(':') in w[3:4] and (len(w) < 5 or w[4] != C(1)):
                                bad('lines', 'value', 'the text after a second colon is lost', g.where)
                    for w in expand(it, p.st, v):
                        if w[0] == 'o' and w[1] == 'split' and C(':') in w[3:4] and (len(w) < 5 or w[4] != C(1)):
                            bad('lines', 'value', 'the text after a second colon is lost', ys[0].where)
            if not n:
                bad('lines', 'loop', 'the lines are not gone over')

        elif qual == 'TextRowGenerator.__init__':
            lines = [f2 for f2 in ('_text_lines', '_text')]
            for p in ps:
                if p.kind == 'raise':
                    continue
                ob('lines', 'text of the document')
                for g in p.events:
                    if g.kind == 'XCALL' and g.args[0].split('.')[-1] in ('read', 'readline', 'readlines') and (
                            g.args[0].split('.')[-1] == 'readline' or any(num(a) is not None and num(a) >= 0 for a in g.args[2])):
                        bad('lines', 'text', 'only a part of the document is read', g.where)
                for (b, n), v in [(k, v) for k, v in p.st.heap.items() if len(k) == 2 and k[0] == self_ and isinstance(v, tuple)]:
                    if n in ('_text_lines', '_text', '_lines'):
                        if partial_iter(v, p.st):
                            bad('lines', 'text', 'only a part of the lines is kept in %s' % n)
                for g in p.events:
                    if g.kind == 'ITER' and g.args[2] == 'comp' and any(w[0] == 'o' and w[1] in ('splitlines', 'split') for w in walk(g.args[0])):
                        if not any(h.kind == 'EMIT' for h in between(p, g)):
                            bad('lines', 'text', 'a line is left out', g.where)
        return pack(it, findings, obs)

    items = [(q, later) for q in gens for later in (False, True)]
    sweep(ck, items, job, caps=(4000, 600), limit=300, must=(('TermParser.generate_terms', False),), label=str)
