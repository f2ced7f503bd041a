"""C16 CSV and lines output contain every term and property."""
import re

from ..common import *
from ..total import *

NAMES = {'Term.record_term_lc', 'Term.record_term', 'Term.join_lc', 'Term.join', 'Term.qualified_term', 'Term.term'}


def rows_of(v, names):
    return v[0] == 'x' and v[1] in names


LOSSY = {'split', 'rsplit', 'partition', 'rpartition', 'replace', 'slice', 'removeprefix', 'removesuffix', 'translate'}


def run(prog, ck, thorough):
    ck.rule('terms', 'every term of a section, and every section of the document, is rendered', 1)
    ck.rule('children', 'every child of a term is rendered with its own value and name, and a repeated property does not '
                        'replace an earlier one', 1)
    ck.rule('columns', 'a property is taken out of the row of its term only to put it in its column, the other ones get rows of '
                       'their own, and the columns are those of the header', 1)
    ck.rule('cells', 'only blank cells are left out of lines output', 1)
    ck.rule('names', 'a name is written as it is, but for letter case and the prefix for the root', 1)
    ck.rule('escape', 'a column separator within a value is escaped, in a way that the reader of the lines format undoes', 1)
    ck.rule('text', 'every row and line goes to the text that is returned', 1)
    at = boundaries(prog)
    want = {}
    for mod, qual in (('metatab.terms', 'Term.rows'), ('metatab.terms', 'SectionTerm.rows'),
                      ('metatab.terms', 'SectionTerm.lines'), ('metatab.terms', 'SectionTerm.as_lines'),
                      ('metatab.doc', 'MetatabDoc.rows'), ('metatab.doc', 'MetatabDoc.lines'),
                      ('metatab.doc', 'MetatabDoc.as_csv'), ('metatab.doc', 'MetatabDoc.as_lines')):
        want[qual] = prog.func(mod, qual)
    ROWS = {'Term.rows', 'SectionTerm.rows', 'RootSectionTerm.rows'}

    def job(qual, cap):
        f = want[qual]
        me = ('p', f.params[0])
        it, ps = paths(prog, f, cap, at)
        findings, obs = [], []
        here = (f.module.path, f.qual, f.node.lineno)

        def bad(rule, construct, text, where=None):
            findings.append(Finding(rule, where or here, construct, '%s: %s' % (qual, text)))

        def ob(rule, what):
            obs.append((rule, '%s: %s' % (qual, what)))

        def loops(pred, what, rule):
            """The collection is gone over as a whole."""
            n = 0
            for p in ps:
                for e in p.iters(pred):
                    n += 1
                    if partial_iter(e.args[0], p.st):
                        bad(rule, what, 'goes over a part of the %s only' % what, e.where)
                e = p.cut_short(pred)
                if e is not None:
                    bad(rule, what, 'stops before the end of the %s' % what, e.where)
            if not n:
                bad(rule, what, 'does not go over the %s' % what)
            return n

        def passed(rule, what):
            """Values of a nested generator are passed on."""
            for p in ps:
                i = None
                for j, e in enumerate(p.events):
                    if e.kind == 'GENVAL':
                        i = j
                if i is None or p.kind == 'raise':
                    continue
                val = p.events[i].args[0]
                outs = [e for e in p.events[i + 1:] if e.kind in ('YIELD', 'MUT', 'EMIT')]
                for e in outs:
                    vs = e.args[0] if e.kind == 'YIELD' else e.args[1] if e.kind == 'EMIT' else ('t',) + tuple(
                        w for w in e.args[3] if isinstance(w, tuple))
                    if carries(it, p.st, vs, val) or val[0] == 't' and carries(it, p.st, vs, *[
                            c for c in val[1:] if not is_const(c)]) or consumed(p, i, val):
                        break
                else:
                    if not consumed(p, i, val):
                        bad(rule, what, 'a row that a helper produces is not passed on', p.events[i].where)

        def consumed(p, i, val):
            return any(e.kind == 'ITER' and e.args[1] == val for e in p.events[i:])

        def rootish(p, s):
            """A condition that says that s is the root section."""
            for k, b in p.conds():
                if k[0] == 'o' and k[1] in ('==', 'is') and b:
                    vs = k[2:]
                    if any(is_const(w) and isinstance(cval(w), str) and cval(w).lower() == 'root' for w in vs) or any(
                            y[0] == 'a' and y[2] == 'root' for w in vs for y in walk(w)):
                        return True
                if k[0] == 'o' and k[1] in ('isinstance', 'in') and b and 'oot' in show(k):
                    return True
                if k[0] == 'x' and k[1].endswith('term_is') and b and 'oot.root' in show(k).lower().replace('root.root', 'oot.root'):
                    return True
            return False

        def header(p, s, rule):
            """The header of section s is yielded, or s is the root section."""
            ob(rule, 'header of a section')
            if rootish(p, s):
                return
            for e in p.yields():
                v = e.args[0]
                if carries(it, p.st, v, lambda w: is_const(w) and cval(w) in ('Section', 'section', 'Section: ')):
                    fed = [v] + [i.args[0] for i in p.events if i.kind in ('ITER', 'ITERNONE') and i.where[2] == e.where[2]] + [
                        i.args[0] for i in p.events if i.kind in ('ITER', 'ITERNONE') and carries(it, p.st, v, i.args[0])]
                    if not any(carries(it, p.st, w_, lambda w: w in (('a', s, 'value'), ('x', 'SectionTerm.name', (s,)),
                                                                     ('a', s, 'name'))) for w_ in fed):
                        bad('terms', 'header', 'the header of a section does not have its name', e.where)
                    if not any(carries(it, p.st, w_, lambda w: w == ('x', 'SectionTerm.property_names', (s,))) for w_ in fed):
                        bad('columns', 'header', 'the header of a section does not have the columns that its rows have', e.where)
                    if qual == 'SectionTerm.lines' and v[0] == 't' and len(v) == 3:
                        for raw in (('a', s, 'value'), ('e', ('x', 'SectionTerm.property_names', (s,)))):
                            for w in walk(v[2]):
                                if w[0] == 'o' and w[1] == 'join' and carries(it, p.st, w, raw):
                                    ob('escape', 'header')
                                    if any(escaped(p, m, raw) is False for m in w[3:] if isinstance(m, tuple)):
                                        bad('escape', 'header', 'a column name is written without escaping the separator in it',
                                            e.where)
                    return
            bad('terms', 'header', 'a section other than the root has no header')

        def name_ok(v, base):
            """v is base, but for letter case and the root prefix."""
            while v[0] == 'o' and v[1] in ('title', 'lower', 'str', 'capitalize', 'strip'):
                v = v[2]
            if v == base:
                return True
            if v[0] == 'x' and v[1] in ('re.sub', '.sub') and len(v[2]) >= 3 and is_const(v[2][0]) and is_const(v[2][1]):
                return name_ok(v[2][2], base) and anchored(cval(v[2][0]), cval(v[2][1]), v[2][3:])
            if v[0] == 'x' and v[1] == '.sub' and len(v[2]) >= 3 and v[2][0][0] == 'x' and v[2][0][1] == 're.compile':
                pat = v[2][0][2][0]
                return is_const(pat) and name_ok(v[2][2], base) and anchored(cval(pat), cval(v[2][1]), v[2][3:])
            if v[0] in ('x', 'o') and v[1] in ('.removeprefix', 'removeprefix'):
                args = v[2] if v[0] == 'x' else v[2:]
                return name_ok(args[0], base) and args[1] == C('root.')
            if v[0] == 'o' and v[1] == 'slice':
                k = v[3]
                ok = k == C(len('root.')) or k[0] == 'o' and k[1] == 'len' or k[0] == 'x' and k[1] == 'len'
                return ok and name_ok(v[2], base)
            if v[0] == 'phi':
                return all(name_ok(m, base) for m in v[1])
            return False

        def anchored(pat, repl, rest):
            if not isinstance(pat, str) or repl != '':
                return False
            try:
                r = re.compile(pat)
                flags = any('IGNORECASE' in show(w) or w == C(2) or 're.I' in show(w) for w in rest)
                r = re.compile(pat, re.I if flags else 0)
            except re.error:
                return False
            probes = {'root.title': 'title', 'subroot.x': 'subroot.x', 'root.root.x': 'root.x', 'x.root.': 'x.root.',
                      'title': 'title', 'rootx.a': 'rootx.a', 'rooter.b': 'rooter.b', 'aroot.b': 'aroot.b'}
            return all(r.sub('', k) == w for k, w in probes.items() if k != 'root.root.x')

        def escaped(p, v, raw):
            """v, which has raw in it, is escaped or not a string."""
            for k, b in p.conds():
                if not b and k[0] == 'o' and k[1] == 'isinstance' and k[2] == raw and 'str' in show(k):
                    return True
                if b and k[0] == 'o' and k[1] == 'isnone' and k[2] == raw:
                    return True
                if not b and k == ('o', 'in', C('|'), raw):
                    return True
            for m in members(v):
                if m == raw:
                    return False
                if m[0] == 'o' and m[1] == 'replace' and len(m) >= 5 and m[3] == C('|') and is_const(m[4]):
                    esc.add(cval(m[4]))
                    continue
                if m[0] == 'x' and m[1] in ('re.sub',) and any(is_const(a) and '|' in str(cval(a)) for a in m[2]):
                    continue
                if m[0] == 'o' and m[1] in ('str', 'strip'):
                    if not escaped(p, m[2], raw):
                        return False
                    continue
                return None
            return True

        esc = set()

        def check_escape(p, y, raw):
            ob('escape', 'line %s' % show(y.args[0])[:60])
            if raw is not None and escaped(p, y.args[0][2], raw) is False:
                bad('escape', 'value', 'a value is written without escaping the column separator in it', y.where)

        def first(p, y, row):
            """The first cell of an output row is the name of the term."""
            v = y.args[0]
            ob('names', 'row of the document')
            cell = p.st.heap.get((v, '[k]', C(0))) if v[0] == 'n' else v[1] if v[0] == 't' and len(v) > 1 else None
            seq = it.exact(p.st, v)
            if seq:
                cell = seq[0]
            if cell is None:
                if not carries(it, p.st, v, ('i', row, C(0))):
                    bad('names', 'row', 'the name of a term is not in its row', y.where)
            elif not name_ok(cell, ('i', row, C(0))):
                bad('names', 'row', 'the name of a term is written as %s' % show(cell), y.where)

        if qual == 'Term.rows':
            child = lambda v: v == ('e', ('a', me, 'children'))
            coll = lambda v: v == ('a', me, 'children') or v[0] == 'n' and carries(it, p_[0].st, v, ('e', ('a', me, 'children')))
            c = ('e', ('a', me, 'children'))
            crows = [('x', n, (c,)) for n in ROWS]
            p_ = [None]
            loops(child, 'children', 'children')
            for p in ps:
                e = p.cut_short(lambda v: v in [('e', r) for r in crows])
                if e is not None:
                    bad('children', 'nested', 'stops before the last row of a nested child', e.where)
            passed('children', 'rows')
            for p in ps:
                p_[0] = p
                if not p.complete():
                    continue
                own = [e for e in p.yields() if carries(it, p.st, e.args[0], ('a', me, 'value'))]
                ob('terms', 'own row')
                if not own:
                    bad('terms', 'own row', 'the value of the term is not in any row')
                elif not any(carries(it, p.st, e.args[0], lambda w: w[0] == 'x' and w[1] in NAMES and w[2] == (me,)) for e in own):
                    bad('names', 'own row', 'the row of the term does not have its qualified name', own[0].where)
                if not p.iters(child) or p.iters(coll, ('ITERNONE',)):
                    continue
                terminal = None
                for k, b in p.conds():
                    if k == ('x', 'Term.is_terminal', (c,)):
                        terminal = b
                    elif k == ('a', c, 'children') or k in [('x', 'len', (('a', c, 'children'),)), ('o', 'len', ('a', c, 'children'))]:
                        terminal = not b
                    elif k[0] == 'o' and k[1] == '==' and C(0) in k[2:] and any('len' in show(w) and 'children' in show(w) for w in k[2:]):
                        terminal = b
                    elif k[0] == 'o' and k[1] == '<' and k[2] == C(0) and 'len' in show(k[3]):
                        terminal = not b
                nameless = any(k in [('x', n, (c,)) for n in ('Term.record_term_lc', 'Term.record_term')] + [
                    ('a', c, 'record_term'), ('a', c, 'record_term_lc')] and not b for k, b in p.conds())
                ob('children', 'terminal=%s nameless=%s' % (terminal, nameless))
                deep = p.iters(lambda v: v in [('e', r) for r in crows]) + p.iters(lambda v: v in crows, ('ITERNONE',))
                if deep:
                    for e in p.iters(lambda v: v in [('e', r) for r in crows]):
                        if not any(whole(it, p.st, y.args[0], e.args[1]) for y in p.yields()):
                            bad('children', 'nested', 'a row of a nested child is not passed on', e.where)
                if terminal is not True:
                    if not deep:
                        bad('children', 'nested', 'the rows of a child with children are not rendered')
                    continue
                if deep:
                    continue
                if nameless:
                    continue
                done = False
                for y in p.yields():
                    v = y.args[0]
                    if v[0] == 't' and len(v) == 3 and carries(it, p.st, v[2], ('a', c, 'value')) and v[2][0] != 'n':
                        done = True
                        if not carries(it, p.st, v[1], lambda w: w[0] == 'x' and w[1] in NAMES and w[2] == (c,)):
                            bad('names', 'child', 'the row of a property does not have its name', y.where)
                        elif not carries(it, p.st, v[1], lambda w: w[0] == 'x' and w[1] in (
                                'Term.qualified_term', 'Term.join', 'Term.join_lc') and w[2] == (c,)) and not carries(
                                it, p.st, v[1], lambda w: w[0] in 'xa' and me in w[1:] + (w[2] if w[0] == 'x' else ())):
                            bad('names', 'child', 'the row of a property does not have the name of its parent', y.where)
                for i, e in enumerate(p.events):
                    if e.kind == 'MUT' and e.args[1] in ('__setitem__', 'setdefault', 'update') and any(
                            isinstance(w, tuple) and carries(it, p.st, w, ('a', c, 'value')) for w in e.args[3]):
                        D, key = e.args[0], e.args[3][0]
                        if not any(y.kind == 'YIELD' and carries(it, p.st, y.args[0], D) for y in p.events[i:]):
                            continue
                        done = True
                        if not carries(it, p.st, key, lambda w: w[0] in 'xa' and c in (w[2] if w[0] == 'x' else w[1:])):
                            bad('names', 'child', 'a property is rendered under another name than its own', e.where)
                        if not any(k.kind == 'COND' and k.args[0][0] == 'o' and k.args[0][1] == 'in' and k.args[0][3] == D and
                                   k.args[0][2] == key and k.args[1] is False for k in p.events[:i]):
                            bad('children', 'repeated', 'a property replaces an earlier one of the same name', e.where)
                if not done:
                    bad('children', 'property', 'a property is not rendered')

        elif qual == 'SectionTerm.rows':
            base = [('e', ('a', me, 'terms')), ('e', ('x', 'SectionTerm.__iter__', (me,)))]
            term = lambda v: v in base
            loops(term, 'terms', 'terms')
            passed('terms', 'rows')
            for p in ps:
                if p.kind != 'return':
                    continue
                for e in p.iters(term):
                    t = e.args[1]
                    ob('terms', 'term')
                    rs = [('x', n, (t,)) for n in ROWS]
                    ite = p.iters(lambda v: v in [('e', r) for r in rs])
                    if not ite and not p.iters(lambda v: v in rs, ('ITERNONE',)):
                        if p.complete():
                            bad('terms', 'rows', 'the rows of a term are not rendered', e.where)
                        continue
                    if not p.complete():
                        continue
                    x_ = p.cut_short(lambda v: v in [('e', r) for r in rs])
                    if x_ is not None:
                        bad('terms', 'rows', 'stops before the last row of a term', x_.where)
                    for r in ite:
                        if partial_iter(r.args[0], p.st):
                            bad('terms', 'rows', 'renders only a part of the rows of a term', r.where)
                        section_row(p, r, me, bad, ob)

        elif qual in ('MetatabDoc.rows', 'MetatabDoc.lines'):
            sec = ('a', me, 'sections')
            item = ('i', sec, ('k', sec))
            cand = [item, ('e', sec), ('e', ('x', 'MetatabDoc.__iter__', (me,))), ('e', ('x', 'values', (sec,)))]

            def find(v):
                return next((w for w in walk(v) if w in cand), None)

            section = lambda v: find(v) is not None and v[0] in ('t', 'i', 'e')
            loops(section, 'sections', 'terms')
            passed('terms', 'rows')
            inner = ROWS if qual == 'MetatabDoc.rows' else {'SectionTerm.lines', 'RootSectionTerm.lines'}
            for p in ps:
                if not p.complete():
                    continue
                for e in p.iters(section):
                    s = find(e.args[1])
                    ob('terms', 'section')
                    rs = [('x', n, (s,)) for n in inner]
                    ite = p.iters(lambda v: v in [('e', r) for r in rs])
                    if not ite and not p.iters(lambda v: v in rs, ('ITERNONE',)):
                        bad('terms', 'section', 'the rows of a section are not rendered', e.where)
                        continue
                    if qual == 'MetatabDoc.rows':
                        header(p, s, 'terms')
                    x_ = p.cut_short(lambda v: v in [('e', r) for r in rs])
                    if x_ is not None:
                        bad('terms', 'rows', 'stops before the last row of a section', x_.where)
                    for r in ite:
                        if partial_iter(r.args[0], p.st):
                            bad('terms', 'rows', 'renders only a part of the rows of a section', r.where)
                        row = r.args[1]
                        if qual == 'MetatabDoc.lines':
                            if not any(whole(it, p.st, y.args[0], row) for y in p.yields()):
                                bad('terms', 'row', 'a line of a section is not passed on', r.where)
                            continue
                        out = [y for y in p.yields() if carries(it, p.st, y.args[0], lambda w: w == row or w == ('i', row, C(1)))]
                        if not out:
                            bad('terms', 'row', 'a row of a section is not rendered', r.where)
                            continue
                        for y in out:
                            first(p, y, row)

        elif qual == 'SectionTerm.lines':
            rs = [('x', n, (me,)) for n in ROWS]
            line = lambda v: v in [('e', r) for r in rs]
            loops(line, 'rows', 'terms')
            passed('terms', 'lines')
            for p in ps:
                if not p.complete():
                    continue
                header(p, me, 'terms')
                for r in p.iters(line):
                    row = r.args[1]
                    val = ('i', row, C(1))
                    ob('terms', 'row')
                    tail = [val] + [w for e in p.events for a in e.args if isinstance(a, tuple) for w in walk(a)
                                    if w[0] == 'o' and w[1] == 'slice' and w[2] == val]

                    def cellish(v):
                        """A cell after the first one."""
                        return v == ('e', val) or v[0] == 'i' and v[1] in tail and not is_const(v[2])

                    cols = ('x', 'SectionTerm.property_names', (me,))
                    cells = [e for e in p.iters(lambda v: carries(it, p.st, v, ('e', val)))]
                    byidx = [] if cells else [e for e in p.iters(lambda v: carries(it, p.st, v, ('e', cols)))
                                              if e.where[1] == f.qual and e.args[2] != 'comp']
                    out = []
                    for y in p.yields():
                        v = y.args[0]
                        if v[0] == 't' and len(v) == 3 and (carries(it, p.st, v[2], val) or carries(it, p.st, v[2], (
                                'i', val, C(0)))) and not carries(it, p.st, v[2], cellish):
                            out.append(y)
                    if not out:
                        bad('terms', 'row', 'a row of the section has no line', r.where)
                    for y in out:
                        ob('names', 'line of a row')
                        if not name_ok(y.args[0][1], ('i', row, C(0))):
                            bad('names', 'row', 'the name of a term is written as %s' % show(y.args[0][1]), y.where)
                        raw = next((w for w in expand(it, p.st, y.args[0][2]) if w in (('i', val, C(0)), val)), None)
                        check_escape(p, y, raw)
                    islist = any(k[0] == 'o' and k[1] == 'isinstance' and k[2] == val and not b for k, b in p.conds())
                    if islist or any(k[0] == 'o' and k[1] == 'isinstance' and k[2] == val and b and 'str' in show(k)
                                     for k, b in p.conds()):
                        continue
                    none = p.iters(lambda v: carries(it, p.st, v, val) or carries(it, p.st, v, cols), ('ITERNONE',))
                    if not cells and not none and not byidx:
                        bad('cells', 'cells', 'the cells of a row after the first have no lines', r.where)

                    def last(e):
                        """The path is the one after the last cell."""
                        return any(k[0] == 'o' and k[1] in ('<', '<=') and 'len' in show(k[2]) and b for k, b in p.conds())

                    for e in cells + byidx:
                        itv = e.args[0]
                        ob('cells', 'cell')
                        for w in [w for a in tail for w in walk(a)]:
                            if w[0] == 'o' and w[1] == 'slice' and w[2] == val and (w[3] != C(1) or w[4] != NONE or w[5] not in (
                                    NONE, C(1))):
                                bad('cells', 'cells', 'only a part of the cells of a row has lines', e.where)
                        x_ = p.cut_short(lambda v: v == e.args[1])
                        if x_ is not None and not (e in byidx and last(e)):
                            bad('cells', 'cells', 'stops before the last cell of a row', x_.where)
                        got = {w for ev in p.events if ev.kind in ('COND', 'YIELD') for w in expand(it, p.st, ev.args[0]) if cellish(w)}
                        if not got:
                            if e in byidx and (last(e) or any('IndexError' in str(ev.args) for ev in p.events if ev.kind == 'HANDLER')):
                                continue
                            bad('cells', 'cell', 'a cell has no line', e.where)
                        for cell in got:
                            ys = [y for y in p.yields() if carries(it, p.st, y.args[0], cell)]
                            for y in ys:
                                if not carries(it, p.st, y.args[0], lambda w: w[0] in ('e', 'i') and w[1] == cols):
                                    bad('columns', 'cell', 'a cell is not written under the name of its column', y.where)
                                if y.args[0][0] == 't' and len(y.args[0]) == 3:
                                    check_escape(p, y, cell)
                            if not ys and not blank(p, cell):
                                bad('cells', 'cell', 'a cell that is not blank has no line', e.where)

        elif qual == 'MetatabDoc.as_csv':
            rs = [('x', 'MetatabDoc.rows', (me,))]
            line = lambda v: v in [('e', r) for r in rs]
            whole_calls = [e for p in ps for e in p.events if e.kind == 'XCALL' and e.args[0] == '.writerows' and any(
                carries(it, p.st, a, rs[0]) or carries(it, p.st, a, ('e', rs[0])) for a in e.args[2])]
            if not whole_calls:
                loops(line, 'rows', 'text')
            for p in ps:
                if p.kind != 'return':
                    continue
                ob('text', 'csv')
                wr = [e for e in p.events if e.kind == 'XCALL' and e.args[0] in ('.writerow', '.writerows')]
                for r in p.iters(line):
                    if r.args[2] == 'comp' and whole_calls:
                        continue
                    if not any(e.args[0] == '.writerow' and e.args[2] and same_row(p, e.args[2][0], r.args[1]) or
                               e.args[0] == '.writerows' for e in wr):
                        bad('text', 'row', 'a row is not written to the text as it is', r.where)
                if 'getvalue' not in show(p.v) and 'join' not in show(p.v):
                    bad('text', 'result', 'does not return the text that was written')

        else:       # as_lines
            rs = [('x', n, (me,)) for n in ('MetatabDoc.lines', 'SectionTerm.lines')]
            line = lambda v: v in [('e', r) for r in rs]
            loops(line, 'lines', 'text')
            for p in ps:
                if p.kind != 'return':
                    continue
                for r in p.iters(line):
                    ob('text', 'line')
                    row = r.args[1]
                    ok = False
                    none = any(k in (('o', 'isnone', ('i', row, C(1))), ('o', 'is', ('i', row, C(1)), NONE)) and b
                               for k, b in p.conds())
                    for e in p.events:
                        if e.kind == 'MUT':
                            v = ('t',) + tuple(w for w in e.args[3] if isinstance(w, tuple))
                        elif e.kind == 'EMIT':
                            v = e.args[1]
                        elif e.kind == 'YIELD':
                            v = e.args[0]
                        else:
                            continue
                        if carries(it, p.st, v, ('i', row, C(0))) and (none or carries(it, p.st, v, ('i', row, C(1)))) or \
                                carries(it, p.st, v, row):
                            ok = True
                    if not ok and not (carries(it, p.st, p.v, ('i', row, C(0))) and (none or carries(it, p.st, p.v, ('i', row, C(1))))):
                        bad('text', 'line', 'a line is not put in the text', r.where)
                if not any(w[0] == 'o' and w[1] in ('join', '+', 'fmt') or w[0] == 'x' and w[1] == '.getvalue' for w in walk(p.v)):
                    if p.iters(line):
                        bad('text', 'result', 'does not return the lines')
                for w in walk(p.v):
                    if w[0] == 'o' and w[1] == 'join' and is_const(w[2]) and '\n' not in str(cval(w[2])):
                        bad('text', 'result', 'the lines are not separated')
        for e_ in sorted(esc):
            obs.append(('escape', 'separator written as %r' % e_))
        return pack(it, findings, obs, esc=sorted(esc))


    def section_row(p, r, me, bad, ob):
        it = p.it
        row = r.args[1]
        val = ('i', row, C(1))
        if any(carries(it, p.st, y.args[0], row) for y in p.yields()):
            return
        isdict = None
        for k, b in p.conds():
            if k[0] == 'o' and k[1] == 'isinstance' and k[2] == val and 'dict' in show(k):
                isdict = b
        ob('columns', 'dict=%s' % isdict)
        if isdict is not True:
            if isdict is None or not any(whole(it, p.st, y.args[0], row) for y in p.yields()):
                if not any(whole(it, p.st, y.args[0], row) for y in p.yields()):
                    bad('terms', 'row', 'a row of a term is not passed on', r.where)
            return
        # the dict of the properties
        made = [val] + [k[0] for k, w in p.st.heap.items() if k[0][0] == 'n' and isinstance(w, tuple) and carries(it, p.st, w, lambda y: y == val or y[0] in 'ike' and y[1] == val)]
        rowy = [y for y in p.yields() if y.args[0][0] == 't' and carries(it, p.st, y.args[0], ('i', row, C(0))) and
                y.args[0][-1][0] == 'n']
        if not rowy:
            bad('terms', 'row', 'the row of a term is not rendered', r.where)
        for y in rowy:
            v = y.args[0]
            if v[1] != ('i', row, C(0)):
                bad('names', 'row', 'the row of a term is not rendered under its name', y.where)

        if p.iters(lambda v: val in walk(v), ('ITERNONE',)):
            return      # the term has no properties

        def over(v):
            return any(w in made for w in walk(v))

        late = [e for e in p.events[p.events.index(rowy[0]) if rowy else 0:] if e.kind in ('ITER', 'ITERNONE') and over(e.args[0])]
        if not late:
            bad('columns', 'remaining', 'properties that have no column are not rendered', r.where)
        for e in p.events:
            if e.kind == 'ITER' and e.args[2] != 'comp' and over(e.args[0]) and rowy and p.events.index(e) > p.events.index(rowy[0]):
                el = e.args[1]
                comps = list(el[1:]) if el[0] == 't' else [el]
                if not any(all(carries(it, p.st, y.args[0], c) for c in comps) for y in p.yields()):
                    bad('columns', 'remaining', 'a property that has no column is not rendered', e.where)
                elif not any(all(carries(it, p.st, y.args[0], c) for c in comps) and carries(
                        it, p.st, y.args[0], ('i', row, C(0))) for y in p.yields()):
                    bad('names', 'remaining', 'a property that has no column is rendered without the name of its parent', e.where)
        for i, e in enumerate(p.events):
            # a property that is skipped because of its value
            if e.kind != 'ITER' or not over(e.args[0]) or e.args[1][0] != 't' or len(e.args[1]) != 3:
                continue
            k_, v_ = e.args[1][1:]
            end = next((j for j, y in enumerate(p.events) if j > i and y.kind == 'ITEREND' and y.args[:2] == e.args[:2]), None)
            if end is None:
                continue
            part = p.events[i + 1:end]
            if any(y.kind in ('YIELD', 'MUT', 'EMIT') for y in part):
                continue
            for y in part:
                if y.kind == 'COND' and v_ in walk(y.args[0]) and not (y.args[0] in (op('isnone', v_), op('is', v_, NONE)) and y.args[1]):
                    ob('columns', 'skipped')
                    bad('columns', 'skipped', 'a property is left out because of its value, when %s is %s' % (
                        show(y.args[0]), y.args[1]), e.where)
        x_ = p.cut_short(lambda v: over(v) and v[0] == 't')
        if x_ is not None:
            bad('columns', 'remaining', 'stops before the last property', x_.where)
        # what is taken out of the dict goes to a column
        for e in p.events:
            if e.kind == 'MUT' and e.args[1] in ('__delitem__', 'pop', 'popitem', 'clear') and e.args[0] in made:
                ob('columns', 'taken out')
                key = e.args[3][0] if e.args[3] else None
                put = [m for m in p.events if m.kind in ('MUT', 'EMIT') and (m.kind == 'EMIT' or m.args[1] in (
                    'append', 'insert', 'extend', '__setitem__', '__iadd__')) and m.args[0] != e.args[0]]
                if key is None or not any(took(it, p, m, e.args[0], key) for m in put):
                    bad('columns', 'taken out', 'a property is taken out of the row without being put in a column', e.where)
        # the names under which the properties are looked up
        for m in made:
            kc = p.st.heap.get((m, '{k}')) if m[0] == 'n' and m[1] in ('dict', 'OrderedDict') else None
            for w in [y for k in members(kc) for y in walk(k)] if kc is not None else ():
                if w[0] == 'o' and val in walk(w) and (w[1] in LOSSY or w[1] in ('strip', 'lstrip', 'rstrip') and len(w) > 3):
                    bad('names', 'key', 'properties with different names may be given the same name, by %s' % w[1], r.where)
                    break
        cols = ('x', 'SectionTerm.property_names', (me,))
        if not any(carries(it, p.st, e.args[0], cols) for e in p.events if e.kind in ('ITER', 'ITERNONE')):
            bad('columns', 'names', 'the columns of a row are not those of the header of its section', r.where)

    def discarded(where):
        """The result of the call there is not used."""
        import ast
        for m in prog.modules.values():
            if m.path != where[0]:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and n.lineno <= where[2] <= n.end_lineno and isinstance(
                        n.value.func, ast.Attribute) and n.value.func.attr == 'pop':
                    return True
        return False

    def unlower(v):
        while v[0] == 'o' and v[1] in ('lower', 'strip'):
            v = v[2]
        return v

    def alike(p, key):
        """The values which the name that key is made from may have."""
        for e in p.events:
            if e.kind == 'ITER' and e.args[1][0] == 'phi' and unlower(key) in e.args[1][1]:
                return e.args[1][1]
        return (unlower(key),)

    def took(it, p, m, D, key):
        vs = m.args[1] if m.kind == 'EMIT' else ('t',) + tuple(w for w in m.args[3] if isinstance(w, tuple))
        for w in walk(vs):
            if w[0] == 'i' and w[1] == D and w[2] == key:
                return True
            if w[0] == 'x' and w[1] in ('.pop', 'pop', '.get', 'get') and D in walk(w) and key in walk(w):
                return True
        held = p.st.heap.get((D, '{}'))
        got = [e.args[1] for e in p.events if e.kind == 'KEY' and e.args[0] == D and (e.args[2] in ('get', 'load') or e.args[2] == 'pop'
                                                                                         and not discarded(e.where))]
        # (a name that is one of several values is the same one at each use)
        return held is not None and any(w in walk(vs) for w in members(held)) and any(
            g == key or unlower(g) in alike(p, key) for g in got)

    def blank(p, cell):
        """A condition that says that the cell is blank."""
        for k, b in p.conds():
            if b and k[0] == 'o' and k[1] == 'isnone' and k[2] == cell:
                return True
            if b and k[0] == 'o' and k[1] == 'is' and NONE in k[2:] and cell in k[2:]:
                return True
            w = k
            n = 0
            while w[0] == 'o' and w[1] in ('strip', 'str', 'lstrip', 'rstrip'):
                n += w[1] == 'str'
                w = w[2]
            if not b and w == cell and n:
                return True
            if not b and w == cell and k != cell and any(c_ and kk[0] == 'o' and kk[1] == 'isinstance' and kk[2] == cell
                                                         for kk, c_ in p.conds()):
                return True
            if k[0] == 'o' and k[1] == '==' and C('') in k[2:] and b:
                w = next((a for a in k[2:] if a != C('')), NONE)
                while w[0] == 'o' and w[1] in ('strip', 'str'):
                    w = w[2]
                if w == cell:
                    return True
        return False

    def same_row(p, v, row):
        if v == row or v[0] == 'x' and v[1] in ('list', 'tuple') and v[2] == (row,):
            return True
        if v[0] == 'n' and v[1] in ('list', 'tuple'):
            ws = [w for k, w in p.st.heap.items() if k[0] == v and isinstance(w, tuple)]
            return ('e', row) in ws and not any(e.kind == 'COND' and ('e', row) in walk(e.args[0]) for e in p.events)
        return False

    rs = sweep(ck, sorted(want), job, label=str, caps=(512, 64))
    reader(prog, ck, sorted({e for r in rs for e in r.get('esc', ())}))


def reader(prog, ck, written):
    """What the reader of the lines format does with an escaped separator."""
    cls = next((c for c in prog.classes.values() if c.name == 'TextRowGenerator'), None)
    f = cls.find('__iter__') if cls else None
    if f is None:
        return
    seps, unesc = [], []

    def o(ev, st, it):
        if ev.kind == 'XCALL' and ev.args[0] == 're.split' and is_const(ev.args[2][0]):
            seps.append((cval(ev.args[2][0]), ev.where))
        elif ev.kind == 'XCALL' and ev.args[0] == '.split' and ev.args[2] and ev.args[2][0] == C('|'):
            seps.append((re.escape('|'), ev.where))
        elif ev.kind == 'YIELD':
            for w in expand(it, st, ev.args[0]):
                if w[0] == 'o' and w[1] == 'replace' and len(w) >= 5 and is_const(w[3]) and is_const(w[4]):
                    unesc.append((cval(w[3]), cval(w[4])))
                if w[0] == 'o' and w[1] == 'split' and len(w) > 3 and w[3] == C('|'):
                    seps.append((re.escape('|'), ev.where))

    it = Interp(prog, atoms=boundaries(prog), cap=64, observers=[o])
    it.run(f)
    ck.functions.update(it.analysed)
    if not written:
        return
    for pat, where in set(seps):
        for e in written:
            text = 'x' + e + 'y'
            ck.ob('escape', 'reader splits at %r' % pat)
            try:
                got = re.split(pat, text)
                plain = re.split(pat, 'a|b')
            except re.error:
                continue
            if plain == ['a|b']:
                continue      # splits at something else
            for a, b in set(unesc):
                got = [g.replace(a, b) for g in got]
            if got != ['x|y']:
                ck.fail('escape', where, 'reader', '%s reads a separator that was written as %r as %r' % (f.qual, e, got))
    if not seps:
        ck.notes.append('the reader of the lines format does not split with a constant pattern')
