"""C17 The output format always matches the extension or option."""
import ast
import posixpath
import re
from pathlib import PurePosixPath

from ..common import *
from ..effects import io_call, is_fsmod

# file names, as far as their extension matters: each other spelling that starts, ends or contains like an accepted one
NAMES = ['metadata.csv', 'metadata.txt', 'metadata.json', 'metadata.xlsx', 'metadata', 'metadata.CSV', 'metadata.TXT',
         'metadata.tsv', 'metadata.text', 'metadata.csvx', 'metadata.xcsv', 'metadata.xtxt', 'metadata.txt2', 'metadata.t',
         'metadata.c', 'metadata.csv.gz', 'metadata.txt.gz', 'csv', 'txt', '.csv', '.txt', 'metadata.', 'metadata.ctxt',
         'metadata.md', 'metadata.dat', 'metadata.yaml', 'metadata.html', 'metadata.ipynb', 'metadata.zip', 'metadata.cst']
WANT = {'MetatabDoc.write_csv': {'.csv': 'csv'}, 'MetatabDoc.write_lines': {'.txt': 'lines'},
        'MetatabDoc.write': {'.csv': 'csv', '.txt': 'lines'}}
RENDERERS = {'MetatabDoc.as_csv': 'csv', 'MetatabDoc.rows': 'csv', 'MetatabDoc.as_lines': 'lines',
             'MetatabDoc.lines': 'lines', 'json.dumps': 'json', 'yaml.dump': 'yaml', 'yaml.safe_dump': 'yaml'}
FORMATS = {'json': ('json', '.json'), 'yaml': ('yaml', '.yaml'), 'line': ('lines', '.txt'), 'csv': ('csv', '.csv')}


def renderers(v):
    return {RENDERERS[t[1]] for t in walk(v) if t[0] == 'x' and t[1] in RENDERERS}


def run(prog, ck, thorough):
    ck.rule('writer-extension', 'for each extension, a writer either renders in the format of that extension or raises '
                                'without touching a file', 60)
    ck.rule('option-format', 'each output option is rendered by its own renderer', 4)
    ck.rule('option-extension', 'write-in-place uses the extension of the option', 0)
    ck.notes.append('the extension of a path is what pathlib and os.path say it is')
    inline = ('MetatabDoc.write', 'MetatabDoc.write_csv', 'MetatabDoc.write_lines')
    at = boundaries(prog, inline=inline, extra={'MetatabDoc._write_path': 'path'})

    def is_path(v):
        return any(t[0] == 'x' and t[1] in ('MetatabDoc._write_path', 'pathlib.Path') or t[0] == 'p' and t[1] == 'path'
                   for t in walk(v))

    def writer(job, cap):
        f, fname = job
        pp = PurePosixPath('/d', fname)
        ext = pp.suffix
        findings, obs = [], []

        def actual(v):
            """The path that a value is, given that the path that was passed in is pp."""
            if v[0] == 'x' and v[1] in ('.with_suffix', '.with_name') and len(v[2]) == 2 and is_const(v[2][1]):
                try:
                    return getattr(actual(v[2][0]), v[1][1:])(cval(v[2][1]))
                except (TypeError, ValueError):
                    return pp
            for y in v[2] if v[0] == 'x' else ():
                if is_path(y):
                    return actual(y)
            return pp

        def attr(b, a, st, it):
            if not is_path(b):
                return None
            if a in ('suffix', 'name', 'stem'):
                return C(getattr(actual(b), a))
            if a == 'suffixes':
                return ('t',) + tuple(C(e) for e in actual(b).suffixes)
            return None

        def hook(name, args, kw, st, it):
            if name in ('os.path.splitext', 'posixpath.splitext') and args and is_path(args[0]):
                return ('t',) + tuple(C(e) for e in posixpath.splitext(str(actual(args[0]))))
            if name in ('str', 'os.fspath') and args and is_path(args[0]):
                return C(str(actual(args[0])))
            if name in ('os.path.basename', 'posixpath.basename') and args and is_path(args[0]):
                return C(actual(args[0]).name)
            return None

        def track(ev, st, it):
            if ev.kind == 'XCALL':
                return is_fsmod(ev) or ev.args[0] == '.write'
            return ev.kind == 'COND' and is_path(ev.args[0]) and ev.args[0][0] != 'x'

        it = Interp(prog, atoms=at, cap=cap, observers=[track], attr_hook=attr, ext_hook=hook)
        outs = it.run(f)
        want = WANT[f.qual].get(ext)
        wrote = False
        for st, kind, v in outs:
            evs = [e for e in st.events if e.kind == 'XCALL']
            open_conds = [e for e in st.events if e.kind == 'COND' and not is_const(e.args[0])]
            mods = [e for e in evs if is_fsmod(e)]
            data = [e.args[2][0] for e in evs if e.args[0] == '.write' and e.args[2]]
            data += [io_call(e).data for e in mods if io_call(e).data is not None]
            if mods:
                wrote = True
            if want is None and open_conds:
                continue
            if mods and want is None:
                findings.append(Finding('writer-extension', mods[0].where, ext, '%s writes a file with extension %r' % (
                    f.qual, ext), it.chain()))
            elif mods:
                got = set()
                for d in data:
                    got |= renderers(d)
                if got and got != {want}:
                    findings.append(Finding('writer-extension', mods[0].where, ext, '%s writes %s form to a %s path' % (
                        f.qual, '/'.join(sorted(got)), ext)))
            elif kind == 'return' and want is None:
                findings.append(Finding('writer-extension', (f.module.path, f.qual, f.node.lineno), ext,
                                        '%s accepts the extension %r without an error, and writes nothing' % (f.qual, ext)))
            elif kind == 'return' and not open_conds:
                findings.append(Finding('writer-extension', (f.module.path, f.qual, f.node.lineno), ext,
                                        '%s returns without writing to a %s path' % (f.qual, ext)))
        if want is not None and not wrote:
            findings.append(Finding('writer-extension', (f.module.path, f.qual, f.node.lineno), ext,
                                    '%s never writes to a %s path' % (f.qual, ext)))
        obs.append(('writer-extension', '%s with %r: %s' % (f.qual, fname, want or 'refused')))
        return pack(it, findings, obs)

    ws = [prog.func('metatab.doc', q) for q in sorted(WANT)]
    names = set(NAMES)
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(r'\.\w{1,6}$', n.value):
                names.add('metadata' + n.value)
    sweep(ck, [(f, e) for f in ws for e in sorted(names)], writer, label=lambda j: '%s %s' % (j[0].qual, j[1]))

    # command line
    main = prog.func('metatab.cli', 'metatab')
    atc = boundaries(prog, inline=('prt', 'warn', 'cli_init'))
    consts = set()

    def cli(job, cap):
        fmt, inplace = job
        findings, obs = [], []
        offered = set()

        def attr(b, a, st, it):
            if b[0] in ('x', 'a', 'i', 'p') and it.cls(st, b) is None:
                vals = {'out_type': C(fmt), 'write_in_place': C(inplace), 'create': FALSE, 'show_declaration': FALSE,
                        'find_first': NONE, 'scheme': C('file')}
                return vals.get(a)
            return None

        def track(ev, st, it):
            if ev.kind != 'XCALL':
                return False
            name, recv, args, kw = ev.args[:4]
            if name == '.add_argument':
                d = dict(kw)
                if d.get('dest') == C('out_type') and 'const' in d and is_const(d['const']):
                    offered.add(cval(d['const']))
                    longs = [cval(a_)[2:] for a_ in args if is_const(a_) and str(cval(a_)).startswith('--')]
                    for n_ in longs:
                        if n_ in FORMATS and n_ != cval(d['const']):
                            findings.append(Finding('option-format', ev.where, n_, 'the --%s option selects the %s format' % (
                                n_, cval(d['const']))))
            if name == '.set_defaults':
                d = dict(kw)
                if is_const(d.get('out_type', TOP)):
                    offered.add(cval(d['out_type']))
            return is_fsmod(ev) or name in ('.write', 'print', 'pprint.pprint')

        it = Interp(prog, atoms=atc, cap=cap, observers=[track], attr_hook=attr, opaque=('MetatabDoc', 'TermParser'))
        outs = it.run(main)
        rend, ext = FORMATS[fmt]
        done = False
        for st, kind, v in outs:
            for e in st.events:
                name, recv, args, kw = e.args[:4]
                data = None
                if name == '.write':
                    data = args[0] if args else None
                elif is_fsmod(e):
                    io = io_call(e)
                    data = io.data
                    t = io.target
                    sfx = None
                    if t is not None:
                        for y in walk(t):
                            if y[0] == 'x' and y[1] == '.with_suffix':
                                sfx = y[2][-1]
                    if sfx is None and t is not None and inplace:
                        texts = [cval(y) for y in walk(t) if is_const(y) and isinstance(cval(y), str)]
                        obs.append(('option-extension', '%s -> %s' % (fmt, ' '.join(texts))))
                        if not any(y.endswith(ext) or y == ext[1:] for y in texts):
                            findings.append(Finding('option-extension', e.where, fmt, 'the %s option writes to a file whose extension is '
                                                    'not %s' % (fmt, ext)))
                    if sfx is not None and not is_const(sfx):
                        if any(y[0] == 'a' and y[2] in ('suffix', 'suffixes') for y in walk(sfx)):
                            findings.append(Finding('option-extension', e.where, fmt, 'the %s option writes to a file whose extension is '
                                                    'that of the input' % fmt))
                    if sfx is not None and is_const(sfx):
                        obs.append(('option-extension', '%s -> %s' % (fmt, cval(sfx))))
                        if cval(sfx) != ext:
                            findings.append(Finding('option-extension', e.where, fmt, 'the %s option writes to a %s file' %
                                                    (fmt, cval(sfx))))
                elif name == 'print':
                    data = args[0] if args else None
                if data is not None:
                    got = renderers(data)
                    if got:
                        done = True
                        obs.append(('option-format', '%s%s -> %s' % (fmt, ' in place' if inplace else '',
                                                                      '/'.join(sorted(got)))))
                        if got != {rend}:
                            findings.append(Finding('option-format', e.where, fmt, 'the %s option is rendered as %s' % (
                                fmt, '/'.join(sorted(got)))))
        if not done:
            findings.append(Finding('option-format', (main.module.path, main.qual, main.node.lineno), fmt,
                                    'the %s option produces no output%s' % (fmt, ' in place' if inplace else '')))
        return pack(it, findings, obs, offered=offered)

    def other(job, cap):
        """The options that only print."""
        fmt, decl = job
        findings, obs = [], []

        def attr(b, a, st, it):
            if b[0] in ('x', 'a', 'i', 'p') and it.cls(st, b) is None:
                vals = {'out_type': C(fmt), 'write_in_place': FALSE, 'create': FALSE, 'show_declaration': C(decl),
                        'find_first': NONE, 'scheme': C('file')}
                return vals.get(a)
            return None

        def track(ev, st, it):
            return ev.kind == 'XCALL' and ev.args[0] in ('print', 'pprint.pprint', 'sys.stdout.write', '.write')

        it = Interp(prog, atoms=atc, cap=cap, observers=[track], attr_hook=attr, opaque=('MetatabDoc', 'TermParser'))
        data = []
        for st, kind, v in it.run(main):
            data += [(e, e.args[2][0]) for e in st.events if e.args[2]]
        what = '%s%s' % (fmt, ' of a declaration' if decl else '')
        obs.append(('option-format', what))
        if not data:
            findings.append(Finding('option-format', (main.module.path, main.qual, main.node.lineno), fmt, 'the %s option produces no output' % what))
        for e, d in data:
            got = renderers(d)
            want = FORMATS[fmt][0] if decl else None
            if decl and got != {want}:
                findings.append(Finding('option-format', e.where, fmt, 'the %s option is rendered as %s' % (what, '/'.join(sorted(got)) or 'something else')))
            elif not decl and got:
                findings.append(Finding('option-format', e.where, fmt, 'the %s option is rendered as %s' % (what, '/'.join(sorted(got)))))
        return pack(it, findings, obs)

    rs = sweep(ck, [(f, w) for f in sorted(FORMATS) for w in (False, True)], cli, label=str, caps=(256, 64))
    for r in rs:
        consts |= r['offered']
    for c in sorted(set(FORMATS) - consts):
        if consts:
            ck.fail('option-format', (main.module.path, main.qual, main.node.lineno), c, 'the %s option is not offered' % c)
    sweep(ck, [(c, False) for c in sorted(consts - set(FORMATS))] + [('json', True), ('yaml', True)], other, label=str, caps=(256, 64))
