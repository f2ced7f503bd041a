"""C10 The library does not print to stdout or end the process."""
import ast

from ..common import *

PASSES = 2      # of loop bodies

EXEMPT = {'cli_init', 'prt', 'warn', 'err'}
HELPERS = {'cli_init', 'prt', 'err', 'get_table'}
STDOUT = {('g', 'sys.stdout'), ('g', 'sys.__stdout__')}
EXITS = {'sys.exit', 'exit', 'quit', 'os._exit', 'os.abort', 'os.kill', 'signal.raise_signal', '_thread.interrupt_main'}
PRINTERS = {'pprint.pprint', 'pprint.pp', 'input', 'breakpoint', 'pdb.set_trace', 'help', 'builtins.print'}


def is_stdout(v):
    return any(t in STDOUT or (t[0] == 'x' and t[1] == 'sys.stdout') for t in walk(v))


def verdict(ev):
    """Why an event prints or exits, or None."""
    if ev.kind == 'EXIT':
        return 'ends the process (%s)' % ev.args[0]
    if ev.kind == 'RAISE' and ev.args[0] in ('SystemExit', 'KeyboardInterrupt'):
        return 'ends the process (raise %s)' % ev.args[0]
    if ev.kind != 'XCALL':
        return None
    name, recv, args, kw = ev.args[:4]
    kwd = dict(kw)
    if name in ('print', 'builtins.print') or name in ('pprint.pprint', 'pprint.pp'):
        f = kwd.get('file', kwd.get('stream'))
        if name.startswith('pprint') and len(args) > 1:
            f = args[1]
        if f is None or f == NONE or is_stdout(f):
            return '%s writes to standard output' % name
        return None
    if name in PRINTERS:
        return '%s writes to standard output' % name
    if name in EXITS:
        return 'ends the process (%s)' % name
    if name.startswith(('sys.stdout.', 'sys.__stdout__.')) and name.split('.')[-1] in ('write', 'writelines'):
        return '%s writes to standard output' % name
    if name == 'os.write' and args and args[0] == C(1):
        return 'os.write(1) writes to standard output'
    if recv is not None and name in ('.write', '.writelines') and is_stdout(recv):
        return 'writes to standard output'
    if name in ('.pprint',):
        return 'writes to standard output'
    for a in list(args) + list(kwd.values()):
        if a[0] == 'kw':
            a = a[2]
        if a in STDOUT or (a[0] == 'phi' and any(m in STDOUT for m in a[1])):
            return '%s is given standard output' % name
        if a in (('g', 'print'), ('g', 'sys.stdout.write'), ('g', 'sys.exit'), ('g', 'pprint.pprint')):
            return '%s is given %s' % (name, a[1])
    return None


def run(prog, ck, thorough):
    ck.rule('no-output', 'no library function reaches a call that prints to standard output or ends the process', 100)
    ck.rule('no-cli-helper', 'no library function calls the printing and exiting helpers of the command line', 100)
    ck.rule('import-time', 'importing a library module prints nothing and does not exit', 5)
    ck.notes.append('libraries outside the package are not analysed')
    at = boundaries(prog)

    def library(f):
        return f.module.name != 'metatab.cli' and f.qual not in EXEMPT

    def job(f, cap):
        findings = []

        def o(ev, st, it):
            why = verdict(ev)
            if why:
                findings.append(Finding('no-output', ev.where, why, '%s: %s' % (f.qual, why), it.chain()))
            if ev.kind == 'CALL':
                g = ev.args[2]
                if g.module.name == 'metatab.cli' or (g.module.name == 'metatab.util' and g.qual in HELPERS):
                    findings.append(Finding('no-cli-helper', ev.where, g.qual, '%s calls the command line helper %s' % (
                        f.qual, g.qual), it.chain()))

        it = Interp(prog, atoms=at, cap=cap, observers=[o], opaque=('MetatabDoc', 'TermParser'))
        it.run(f)
        k = f.module.name + ':' + f.qual
        return pack(it, findings, [('no-output', k), ('no-cli-helper', k)])

    sweep(ck, [f for f in entries(prog) if library(f)], job, label=lambda f: f.qual)

    for m in prog.modules.values():
        if m.name.startswith(('metatab.cli', 'metatab.test')):
            continue
        ck.ob('import-time', m.name)
        todo = list(m.tree.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                todo += n.decorator_list if not isinstance(n, ast.Lambda) else []
                continue
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) \
                    and n.test.left.id == '__name__':
                continue
            if isinstance(n, ast.Call):
                r = prog.resolve_expr(m, n.func)
                d = r[1] if r and r[0] == 'g' else (n.func.id if isinstance(n.func, ast.Name) and r is None else None)
                given = [a for a in list(n.args) + [k.value for k in n.keywords] if isinstance(a, (ast.Name, ast.Attribute))
                         and (prog.resolve_expr(m, a) or ('', ''))[:2] in STDOUT]
                if given and d not in ('isinstance', 'hasattr', 'getattr', 'type', 'id', 'repr', 'str', 'callable', 'dir', 'vars'):
                    ck.fail('import-time', (m.path, m.name, n.lineno), 'sys.stdout', 'importing %s hands standard output to %s' % (
                        m.name, ast.unparse(n.func)))
                if d == 'print' and any(k.arg == 'file' for k in n.keywords):
                    d = None
                if d in ('print', 'pprint.pprint', 'sys.stdout.write') or d in EXITS:
                    ck.fail('import-time', (m.path, m.name, n.lineno), d, 'importing %s calls %s' % (m.name, d))
            todo.extend(ast.iter_child_nodes(n))
