"""C21 Assertions carry no behaviour."""
import ast
import re

from ..common import *
from ..effects import io_call

PASSES = 2      # of loop bodies

MUTATING = re.compile(r'^(add_|new_|remove_|set_|get_or_new|load_|update_|ensure_|clean|sort_|write|_write|register|'
                      r'unregister|install|manage|__setitem__|__delitem__|__setattr__|substitute|move_|subclass|make_|'
                      r'copytree|prt|warn|err|metatab$|new_metatab|cli_init|setter)')
CONSUMING = {'.read', '.readline', '.readlines', '.seek', '.write', '.close', '.send', '.__next__', 'input', 'print',
             '.throw', 'setattr', 'delattr', 'sys.stdout.write', '.writerow', '.writelines', '.flush'}
LAZY = {'zip', 'map', 'filter', 'iter', 'reversed', 'enumerate', 'itertools.chain', 'itertools.islice', 'csv.reader',
        'itertools.groupby'}


def run(prog, ck, thorough):
    ck.rule('pure-assert', 'evaluating an assertion changes no object that existed before, does no input or output, and '
                           'consumes no iterator', 20)
    ck.rule('debug-flag', 'no statement depends on __debug__ or on an assertion being raised', 10)
    at = boundaries(prog)

    def job(f, cap):
        findings, obs = [], []

        def bad(ev, it, what):
            findings.append(Finding('pure-assert', ev.where, what, 'an assertion in %s %s' % (
                it.assert_fn, what), it.chain()))

        def o(ev, st, it):
            if ev.kind == 'ASSERT':
                if ev.args[0] == 'begin':
                    obs.append(('pure-assert', '%s:%s' % ev.where[1:]))
                    if it.assert_depth == 1:
                        it.assert_fn = ev.where[1]
                return
            if not it.assert_depth:
                return
            if ev.kind == 'MUT':
                if ev.args[0] not in it.assert_new and not (ev.args[0][0] == 'n' and ev.args[0][2][3] in (
                        'kwarg', 'vararg')):
                    bad(ev, it, 'changes %s (%s)' % (show(ev.args[0]), ev.args[1]))
            elif ev.kind == 'STORE':
                if ev.args[0] not in it.assert_new:
                    bad(ev, it, 'assigns %s.%s' % (show(ev.args[0]), ev.args[1]))
            elif ev.kind == 'DELATTR':
                if ev.args[0] not in it.assert_new:
                    bad(ev, it, 'deletes an attribute of %s' % show(ev.args[0]))
            elif ev.kind == 'GLOBAL':
                bad(ev, it, 'assigns a global variable')
            elif ev.kind == 'CALL':
                n = ev.args[0].split('.')[-1]
                g = ev.args[2]
                k = g.module.name + ':' + g.qual
                if k in BASE_FUNCS and MUTATING.match(n) and n != '__init__':
                    b = dict(ev.args[1]).get('self')
                    if b is None or b not in it.assert_new:
                        bad(ev, it, 'calls %s' % ev.args[0])
            elif ev.kind == 'XCALL':
                if ev.args[0] in CONSUMING or io_call(ev) is not None:
                    bad(ev, it, 'calls %s' % ev.args[0])
            elif ev.kind in ('NEXT', 'ITERATE'):
                v = ev.args[0]
                if v[0] == 'n' and v[1] == 'gen' and v not in it.assert_new:
                    bad(ev, it, 'consumes a generator that was created before it')
                elif v[0] == 'x' and v[1] in LAZY and len(it.stack) and not any(
                        isinstance(n, ast.Call) for n in ast.walk(it.assert_node) if isinstance(n, ast.Call) and
                        ast.unparse(n.func).split('.')[-1] == v[1].split('.')[-1]) and ev.where[1] == it.assert_fn:
                    bad(ev, it, 'consumes an iterator that was created before it (%s)' % v[1])
                elif v[0] == 'p' and ev.kind == 'NEXT':
                    bad(ev, it, 'consumes an iterator')

        it = Interp(prog, atoms=at, cap=cap, observers=[o], opaque=('MetatabDoc', 'TermParser'))
        it.assert_fn = ''
        it.run(f)
        return pack(it, findings, obs)

    sweep(ck, entries(prog, private=True), job, label=lambda f: f.qual)

    for f in prog.funcs.values():
        if f.module.name.startswith('metatab.test'):
            continue
        ck.ob('debug-flag', f.module.name + ':' + f.qual)
        loads = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                loads.setdefault(n.id, []).append(n)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assert):
                inside = {id(x_) for x_ in ast.walk(n)}
                for w in ast.walk(n):
                    if isinstance(w, ast.NamedExpr) and any(id(l) not in inside for l in loads.get(w.target.id, [])):
                        ck.fail('pure-assert', (f.module.path, f.qual, n.lineno), w.target.id,
                                'an assertion in %s binds %s, which is used outside of it' % (f.qual, w.target.id))
            elif isinstance(n, ast.Name) and n.id == '__debug__':
                ck.fail('debug-flag', (f.module.path, f.qual, n.lineno), '__debug__', '%s depends on __debug__' % f.qual)
            elif isinstance(n, ast.ExceptHandler) and n.type is not None:
                ts = n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]
                if any(isinstance(t, ast.Name) and t.id == 'AssertionError' for t in ts):
                    ck.fail('debug-flag', (f.module.path, f.qual, n.lineno), 'AssertionError',
                            '%s acts on an assertion being raised' % f.qual)

    # iterators that an assertion would use up
    for f in prog.funcs.values():
        if f.module.name.startswith('metatab.test'):
            continue
        asserts = [n for n in ast.walk(f.node) if isinstance(n, ast.Assert)]
        if not asserts:
            continue
        inside = {id(w) for a in asserts for w in ast.walk(a)}
        lazy, sized, again = set(), set(), set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Call, ast.GeneratorExp)):
                name = 'gen' if isinstance(n.value, ast.GeneratorExp) else ast.unparse(n.value.func)
                if isinstance(n.value, ast.GeneratorExp) or name in LAZY or name.split('.')[-1] in ('chain', 'islice', 'groupby', 'reader', 'tee'):
                    lazy |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            if id(n) in inside:
                continue
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name):
                again.add(n.iter.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                    'list', 'tuple', 'set', 'sorted', 'enumerate', 'next', 'dict', 'zip', 'map', 'filter') and any(
                        isinstance(a, ast.Name) for a in n.args):
                again |= {a.id for a in n.args if isinstance(a, ast.Name)}
            elif isinstance(n, ast.YieldFrom) and isinstance(n.value, ast.Name):
                again.add(n.value.id)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                sized.add(n.value.id)
            elif isinstance(n, ast.Call) and ast.unparse(n.func) == 'len':
                sized |= {a.id for a in n.args if isinstance(a, ast.Name)}
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ('items', 'keys', 'values', 'append', 'sort'):
                sized.add(n.value.id)
        for a in asserts:
            eaten = {}
            for n in ast.walk(a):
                if isinstance(n, ast.comprehension) and isinstance(n.iter, ast.Name):
                    eaten[n.iter.id] = n
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                        'list', 'tuple', 'set', 'sorted', 'next', 'dict', 'all', 'any', 'sum', 'max', 'min'):
                    for w in n.args:
                        if isinstance(w, ast.Name):
                            eaten[w.id] = n
                elif isinstance(n, ast.Compare) and any(isinstance(o_, (ast.In, ast.NotIn)) for o_ in n.ops):
                    for w in n.comparators:
                        if isinstance(w, ast.Name):
                            eaten[w.id] = n
            for name in sorted(eaten):
                par = name in f.params and name not in sized and isinstance(eaten[name], (ast.comprehension,)) or name in f.params and (
                    isinstance(eaten[name], ast.Call) and name not in sized)
                if name in again and (name in lazy or par):
                    ck.fail('pure-assert', (f.module.path, f.qual, a.lineno), name,
                            'an assertion in %s goes over %s, which may be an iterator that is used again' % (f.qual, name))
