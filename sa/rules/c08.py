"""C08 Only explicit write requests touch the filesystem."""
from ..common import *
from ..effects import io_call, is_fsmod

PASSES = 2      # of loop bodies

WRITERS = {'MetatabDoc.write_csv', 'MetatabDoc.write_lines', 'MetatabDoc.write', 'MetatabDoc._write'}
CLI = {'metatab', 'new_metatab_file'}
UTIL = {'make_dir_structure', 'ensure_dir', 'copytree'}
ALLOWED = WRITERS | CLI | UTIL
EXISTS = {'exists', 'isfile', 'lexists', 'is_file'}
CACHE_METHODS = {'.makedirs', '.makedir', '.setbytes', '.settext', '.writetext', '.writebytes', '.removetree',
                 '.removedir', '.opendir_write'}


def fs_event(ev):
    if ev.kind != 'XCALL':
        return None
    if is_fsmod(ev):
        io = io_call(ev)
        return '%s(%s)' % (io.op, '' if not io.mode else '/'.join(io.mode))
    if ev.args[0] in CACHE_METHODS:
        return ev.args[0]
    return None


def exclusive(ev):
    io = io_call(ev) if ev.kind == 'XCALL' else None
    return io is not None and io.mode is not None and all('x' in m for m in io.mode)


PATHS = {'Path', 'PurePath', 'str', 'fspath', 'abspath', 'realpath', 'expanduser', 'resolve', 'absolute', 'fsdecode', 'normpath'}


def peel(v):
    """The path a value stands for, without the wrappers that do not change which file it names."""
    while True:
        if v[0] == 'x' and v[1].split('.')[-1] in PATHS and len(v[2]) == 1:
            v = v[2][0]
        elif v[0] == 'o' and v[1] in PATHS and len(v) > 2:
            v = v[2]
        elif v[0] == 'n' and v[1] in PATHS:
            return v
        else:
            return v


def tested(v):
    """The path of an existence test."""
    if v[0] == 'x' and v[1].split('.')[-1] in EXISTS and v[2]:
        return peel(v[2][0])
    if v[0] == 'o' and v[1] in EXISTS and len(v) > 2:
        return peel(v[2])
    return None


def absent_target(st, target):
    """Has the path established that the target does not exist?"""
    for v, b in st.conds.items():
        if v[0] == 'o' and v[1] == 'not':
            v, b = v[2], not b
        if b is False:
            t = tested(v)
            if t is not None and (target is None or t == peel(target)):
                return True
    return False


def run(prog, ck, thorough):
    ck.rule('who-may-write', 'file-changing calls are reachable only in the write operations and directory helpers', 100)
    ck.rule('who-may-call-writers', 'the write operations and directory helpers are called only by one another and by '
                                    'the command line', 1)
    ck.rule('cli-read', 'with neither creation nor write-in-place requested, the command line reaches no write', 1)
    ck.rule('cli-create', 'creation writes only after the target was found not to exist', 1)
    ck.notes += ['downloading into the cache is done by rowgenerators, outside the package',
                 'the option values of the command line are those that argparse stores under the documented names']
    at = boundaries(prog)

    def job(f, cap):
        findings, obs = [], [('who-may-write', f.module.name + ':' + f.qual)]
        permitted = f.qual in ALLOWED

        def o(ev, st, it):
            d = fs_event(ev)
            if d is not None and not permitted:
                findings.append(Finding('who-may-write', ev.where, d, '%s changes the file system, but %s is not a write '
                                        'operation' % (d, f.qual), it.chain()))
            if ev.kind == 'CALL' and ev.args[0] in ALLOWED and ev.args[0] != f.qual:
                obs.append(('who-may-call-writers', '%s -> %s' % (f.qual, ev.args[0])))
                if not permitted or (f.qual in WRITERS and ev.args[0] in CLI):
                    findings.append(Finding('who-may-call-writers', ev.where, ev.args[0],
                                            '%s calls %s, which writes files' % (f.qual, ev.args[0]), it.chain()))

        it = Interp(prog, atoms=at, cap=cap, observers=[o], opaque=('MetatabDoc', 'TermParser'))
        it.run(f)
        return pack(it, findings, obs)

    items = [f for f in entries(prog) if f.qual not in CLI | UTIL]
    sweep(ck, items, job, label=lambda f: f.qual)

    main = prog.func('metatab.cli', 'metatab')
    atc = boundaries(prog, inline=('metatab', 'new_metatab_file', 'prt', 'warn', 'err', 'cli_init'))

    def cli(case, cap):
        name, create, wip = case
        findings = []
        seen = []

        def hook(b, attr, st, it):
            if b[0] in ('x', 'a', 'i', 'p') and it.cls(st, b) is None:
                if attr == 'create':
                    return create
                if attr == 'write_in_place':
                    return wip
            return None

        def o(ev, st, it):
            d = fs_event(ev)
            target = None
            if d is not None:
                target = ev.args[1] if ev.args[0].startswith('.') else (ev.args[2] or (None,))[0]
                if not (isinstance(target, tuple) and target and isinstance(target[0], str)):
                    target = None
            if d is None and ev.kind == 'CALL' and ev.args[0] in WRITERS:
                d = ev.args[0]
                target = dict(ev.args[1]).get('path', NONE)
            if d is None:
                return
            seen.append(d)
            if name == 'read':
                findings.append(Finding('cli-read', ev.where, d, '%s is reached although neither --create nor '
                                        '--write-in-place was given' % d, it.chain()))
            elif name.startswith('create'):
                if not absent_target(st, target) and not exclusive(ev):
                    findings.append(Finding('cli-create', ev.where, d, '%s is reached on creation without the target '
                                            'having been found absent' % d, it.chain()))

        it = Interp(prog, atoms=atc, cap=cap, observers=[o], opaque=('MetatabDoc', 'TermParser'), attr_hook=hook)
        it.run(main)
        rule = 'cli-create' if name.startswith('create') else 'cli-read'
        return pack(it, findings, [(rule, 'metatab %s: %s' % (name, ', '.join(sorted(set(seen))) or 'no write'))])

    cases = [('read', FALSE, FALSE), ('create default', NONE, FALSE), ('create named', C('metatab'), FALSE),
             ('create other', C('other'), FALSE)]
    sweep(ck, cases, cli, label=lambda c: c[0], caps=(128, 32))
