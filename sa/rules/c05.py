"""C05 A failed write leaves the target file as it was."""
from ..common import *
from ..effects import io_call, is_fsmod, is_temp, norm

RENDER = {'MetatabDoc.as_csv', 'MetatabDoc.as_lines', 'MetatabDoc.as_dict', 'MetatabDoc.rows', 'MetatabDoc.lines',
          'MetatabDoc.cleanse', 'MetatabDoc.update_name', 'MetatabDoc.ensure_identifier', 'MetatabDoc.update_version',
          'MetatabDoc._generate_identity_name', 'MetatabDoc._write_path', 'SectionTerm.rows', 'SectionTerm.lines',
          'SectionTerm.as_lines', 'SectionTerm.as_dict', 'RootSectionTerm.as_dict', 'Term.rows', 'MetatabDoc.all_terms',
          'Term.as_dict', 'MetatabDoc.clean_unused_schema_terms'}
WRITERS = {'MetatabDoc.write_csv', 'MetatabDoc.write_lines', 'MetatabDoc.write'}
XRENDER = {'json.dumps', 'json.dump', 'yaml.dump', 'yaml.safe_dump', 'yaml.dump_all', '.writerow', '.writerows',
           'rowgenerators.parse_app_url'}
MOVES = {'os.replace', 'os.rename', 'shutil.move', 'os.renames', '.replace', '.rename'}


def lazily(v):
    """Does iterating v run a renderer?"""
    return any(t[0] == 'x' and t[1] in RENDER for t in walk(v)) or \
        (v[0] == 'n' and v[1] == 'gen' and any(r in repr(v) for r in RENDER))


def observer(ev, st, it):
    k = ev.kind
    if k == 'CALL':
        return ev.args[0] in RENDER or ev.args[0] in WRITERS or ev.args[0] == 'err'
    if k == 'XCALL':
        return is_fsmod(ev) or ev.args[0] in XRENDER or ev.args[0] in ('.encode', '.write', '.writelines', 'print') \
            or norm(ev.args[0]) in MOVES
    if k == 'ITERATE':
        return lazily(ev.args[0])
    return k in ('RAISE', 'HANDLER')


def source_of_move(ev):
    name, recv, args, kw = ev.args[:4]
    if norm(name) in ('.replace', '.rename'):
        return recv if recv is not None else (args[0] if args else None)
    return args[0] if args else dict(kw).get('src')


def same_file(a, b):
    if a is None or b is None:
        return False
    strip = lambda v: unwrap(v, ('str',)) if v[0] == 'o' else (v[2][0] if v[0] == 'x' and v[1] in (
        'pathlib.Path', 'os.fspath', 'str') and len(v[2]) == 1 else v)
    return strip(a) == strip(b)


def judge(events, entry):
    """Violations along one path: (event, why)"""
    moved = [source_of_move(e) for e in events if e.kind == 'XCALL' and norm(e.args[0]) in MOVES]
    first = None
    streams = []
    encoded = set()
    handled = False
    out = []
    for e in events:
        if e.kind == 'XCALL':
            name, recv, args, kw = e.args[:4]
            if first is None and name == '.encode':
                encoded.add(recv)
                continue
            io = io_call(e)
            if is_fsmod(e):
                target = io.target
                temp = is_temp(target) or io.op == 'temp' or any(same_file(target, m) for m in moved if m is not None)
                if norm(name) in MOVES:
                    temp = False
                if temp:
                    continue
                if first is None:
                    first = e
                    handled = False
                if io.op == 'write_text' and io.data is not None and not (io.data in encoded or is_const(io.data)):
                    out.append((e, 'text is encoded after the target has been opened'))
                if io.op == 'open' and io.text:
                    streams.append(e)
                continue
            if first is None:
                continue
            if handled:
                continue
            if name in XRENDER:
                out.append((e, '%s runs after the target has been opened for writing' % name))
            elif name == '.encode':
                out.append((e, 'text is encoded after the target has been opened for writing'))
            elif name == '.write' and streams and args and not is_const(args[0]) and args[0] not in encoded:
                out.append((e, 'text is encoded while it is written to the target'))
            elif name == '.writelines' and streams and args:
                out.append((e, 'text is encoded while it is written to the target'))
            elif name == 'print' and streams and dict(kw).get('file') is not None:
                out.append((e, 'text is encoded while it is written to the target'))
        elif e.kind == 'CALL':
            if first is not None and not handled:
                if e.args[0] in RENDER:
                    out.append((e, '%s runs after the target has been changed' % e.args[0]))
                elif e.args[0] == 'err':
                    out.append((e, 'the command fails after the target has been changed'))
        elif e.kind == 'ITERATE':
            if first is not None and not handled:
                out.append((e, 'the document is rendered (lazily) after the target has been changed'))
        elif e.kind == 'HANDLER':
            if first is not None:
                handled = True
        elif e.kind == 'RAISE':
            if first is not None and not handled:
                out.append((e, 'raises %s after the target has been changed' % e.args[0]))
    return first, out


ATOMS_EXTRA = {'MetatabDoc._write_path': 'path', 'MetatabDoc._generate_identity_name': 'str'}


def run(prog, ck, thorough):
    ck.rule('write-last', 'on every path of a write operation, validation, clean-up, rendering and encoding all come '
                          'before the first change of the target file', 3)
    ck.notes += ['failures of the operating system while writing (full disk, lost power) are outside the property',
                 'a temporary file that is moved over the target in the end is not the target']
    doc = [prog.func('metatab.doc', 'MetatabDoc.' + n) for n in ('write_csv', 'write_lines', 'write')]
    cli = prog.func('metatab.cli', 'metatab')
    at = boundaries(prog, inline=('new_metatab_file', 'err', 'MetatabDoc.write', 'MetatabDoc.write_csv',
                                  'MetatabDoc.write_lines'), extra=ATOMS_EXTRA)

    def job(f, cap):
        findings, obs = [], []
        it = Interp(prog, atoms=at, cap=cap, observers=[observer], opaque=('MetatabDoc', 'TermParser'))
        outs = it.run(f)
        n = 0
        for st, kind, v in outs:
            first, bad = judge(st.events, f.qual)
            if first is not None:
                n += 1
                obs.append(('write-last', '%s: %s' % (f.qual, ' > '.join(
                    (e.args[0] if e.kind in ('CALL', 'XCALL') else e.kind) for e in st.events)[:300])))
            for e, why in bad:
                findings.append(Finding('write-last', e.where, why, 'in %s: %s' % (f.qual, why), ' > '.join(
                    '%s %s:%s' % ((x_.args[0] if x_.kind in ('CALL', 'XCALL') else x_.kind), x_.where[1], x_.where[2])
                    for x_ in st.events)))
        if n == 0:
            raise AnalysisError('%s writes nothing on any path' % f.qual)
        return pack(it, findings, obs, stats=dict(paths=len(outs), paths_that_write=n))

    sweep(ck, doc + [cli], job, label=lambda f: f.qual, caps=(512, 128))
