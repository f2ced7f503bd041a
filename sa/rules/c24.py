"""C24 Every accepted metatab URL has a defined target."""
import ast
import posixpath
import re

from ..common import *

NAMES = ['doc.csv', 'doc.txt', 'doc.ipynb', 'doc.xlsx', 'doc.zip', 'metadata.csv', 'my-metadata.csv', 'metadata.txt',
         'metadata.ipynb', 'metadata.xlsx', 'metadata.zip', 'doc.pdf', 'doc', 'doc.CSV', 'DOC.XLSX', 'DOC.ZIP', 'pkg.b', '',
         'metadata.csv.zip', 'csv', '.csv', 'doc.tar.gz', 'doc.csv.bak', 'meta', 'example.com-data-2017-us-1.2', 'METADATA.CSV',
         'doc.xls', 'doc.tsv', 'doc.html', 'metadata', 'zip', 'xlsx', 'doc.csvz', 'doc.xlsm', 'metadata.csvx', 'doc.']


def file_ext(v):
    if not v:
        return None
    v = posixpath.splitext(v)[1][1:]
    return v.lower() if v and v != '*' else None


def run(prog, ck, thorough):
    ck.rule('fragment', 'for every kind of file name, the constructor sets a fragment', 20)
    ck.rule('defined', 'for every kind of file name, the resource format, target file and target format are non-empty', 30)
    ck.rule('consistent', 'without a fragment, target file and format are those of the resource; with one, the target file is '
                          'the fragment, and its format that of its extension, or that of the resource', 20)
    ck.notes.append('the decisions depend on the path only through its last component and its extension; every string '
                    'constant of the module is tried as a name and as an extension')
    cls = next((c for c in prog.classes.values() if c.name == 'MetatabUrl'), None)
    if cls is None:
        raise AnalysisError('there is no class MetatabUrl')
    mod = cls.module
    names = set(NAMES)
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(r'[\w.-]{1,20}$', n.value):
            names |= {n.value, 'doc.' + n.value.lstrip('.'), 'doc' + n.value}
    init = cls.find('__init__')
    props = {p: cls.find(p) for p in ('resource_format', 'target_file', 'target_format', 'resource_file')}
    for p in ('resource_format', 'target_file', 'target_format'):
        if props[p] is None:
            ck.fail('defined', (mod.path, cls.name, cls.node.lineno), p, 'MetatabUrl does not define %s' % p)
            return

    def concrete(name, args, kw, st, it):
        short = name.split('.')[-1]
        if short == 'file_ext' and args and is_const(args[0]):
            v = file_ext(cval(args[0]))
            return C(v)
        if short in ('basename', 'dirname', 'splitext') and args and is_const(args[0]) and isinstance(cval(args[0]), str):
            v = getattr(posixpath, short)(cval(args[0]))
            return ('t',) + tuple(C(e) for e in v) if isinstance(v, tuple) else C(v)
        if short == 'join' and not name.startswith('.') and args and all(is_const(a) and isinstance(cval(a), str) for a in args):
            return C(posixpath.join(*[cval(a) for a in args]))
        return None

    at = boundaries(prog, inline=[f.qual for f in prog.funcs.values() if f.qual.startswith('MetatabUrl.')])
    at = {k: v for k, v in at.items() if not k.startswith('MetatabUrl.')}

    def is_url(v):
        return v[0] in ('x', 'n') and str(v[1]).split('.')[-1] in ('Url', 'parse_app_url')

    def undecided(k, st, it):
        """A condition on the name that the analysis could not evaluate."""
        ws = list(walk(k))
        if not any(is_const(w) and isinstance(cval(w), str) for w in ws):
            return False
        return any(w[0] in ('x', 'u') or w[0] == 'n' and it.exact(st, w) is None for w in ws)

    def job(name, cap):
        findings, obs = [], []
        path = posixpath.join('/d', name)
        me = ('p', init.params[0])
        finals = []

        def attr(b, a, st, it):
            if is_url(b) and a == 'path':
                return st.heap.get((b, 'path'), C(path))
            if b == me and a == 'path':
                for k_, v in st.heap.items():
                    if len(k_) == 2 and k_[1] == 'path' and (is_url(k_[0]) or k_[0] == me):
                        return v
                return C(path)
            if b == me and a in ('resource_url', 'url'):
                p = attr(b, 'path', st, it)
                return C('http://example.com' + cval(p)) if is_const(p) else None
            return None

        def o(ev, st, it):
            return ev.kind in ('STORE', 'UNBOUND', 'UNDEFINED', 'MUT')

        it = Interp(prog, atoms=at, cap=cap, observers=[o], attr_hook=attr, ext_hook=concrete)
        where = (mod.path, init.qual, init.node.lineno)
        results = []
        for st, kind, v in it.run(init):
            if kind == 'raise':
                continue
            obs.append(('fragment', repr(name)))
            if any(undecided(k, st, it) for k in st.conds):
                continue
            ub = [e for e in st.events if e.kind in ('UNBOUND', 'UNDEFINED')]
            fr = [e for e in st.events if e.kind == 'STORE' and e.args[1] in ('fragment', '_fragment') and me in members(e.args[0])]
            if ub:
                findings.append(Finding('fragment', ub[0].where, name, 'for a file name like %r, %s is not set' % (
                    name, ub[0].args[0])))
                continue
            if not fr:
                findings.append(Finding('fragment', where, name, 'for a file name like %r, no fragment is set' % name))
                continue
            val = fr[-1].args[2]
            seq = it.exact(st, val)
            frag = None
            if seq and is_const(seq[0]):
                frag = cval(seq[0])
            elif is_const(val):
                frag = cval(val)
            else:
                continue
            p = attr(me, 'path', st, it)
            if not is_const(p):
                continue
            results.append((frag, cval(p), fr[-1].where))
        if not results and not findings:
            # every path raises, or nothing is constant
            if not any(k != 'raise' for _, k, _ in it.run(init)):
                findings.append(Finding('fragment', where, name, 'a URL with the file name %r is not accepted' % name))
        an = set(it.analysed)
        for frag, fpath, w in sorted(set(results), key=str):
            got = {}
            for pn in ('resource_format', 'target_file', 'target_format'):
                f = props[pn]
                me2 = ('p', f.params[0])

                def attr2(b, a, st, it_):
                    if b == me2:
                        if a == 'path':
                            return C(fpath)
                        if a in ('resource_url', 'url'):
                            return C('http://example.com' + fpath)
                        if a == 'resource_file' and props['resource_file'] is None:
                            return C(posixpath.basename(fpath))
                        if a == 'fragment':
                            return ('t', C(frag), NONE)
                    return None

                it2 = Interp(prog, atoms=at, cap=cap, observers=[o], attr_hook=attr2, ext_hook=concrete)
                vals = set()
                for st, kind, v in it2.run(f):
                    if kind == 'raise':
                        vals.add(('raise',))
                    else:
                        vals |= {cval(m) if is_const(m) else ('?', show(m)) for m in members(v)}
                an |= set(it2.analysed)
                got[pn] = vals
                obs.append(('defined', '%r: %s' % (name, pn)))
                fw = (f.module.path, f.qual, f.node.lineno)
                if any(isinstance(x_, tuple) and x_ and x_[0] == '?' for x_ in vals):
                    got[pn] = None
                elif not vals or vals & {None, '', ('raise',)}:
                    findings.append(Finding('defined', fw, name, '%s of a URL with the file name %r is %s' % (
                        pn, name, sorted(map(str, vals)))))
                    got[pn] = None
            rf, tf, tm = (list(got[k])[0] if got[k] is not None and len(got[k]) == 1 else None
                          for k in ('resource_format', 'target_file', 'target_format'))
            ext = file_ext(posixpath.basename(fpath))
            bad = []
            if rf is not None and rf != ext:
                bad.append(('resource_format', 'the resource format is %r, but the file is %r' % (rf, fpath)))
            if not frag:
                if tf is not None and tf != posixpath.basename(fpath):
                    bad.append(('target_file', 'there is no fragment, but the target file is %r, not %r' % (
                        tf, posixpath.basename(fpath))))
                want = ext
            else:
                if tf is not None and tf != frag:
                    bad.append(('target_file', 'the fragment is %r, but the target file is %r' % (frag, tf)))
                want = file_ext(frag) or ext
                if ext not in ('zip', 'xlsx', 'xls', 'xlsm'):
                    bad.append(('target_file', 'a %s file is not a container, but the fragment is %r' % (ext, frag)))
            if ext in ('zip', 'xlsx') and not frag:
                bad.append(('target_file', 'a %s file is a container, but there is no fragment' % ext))
            if tm is not None and tm != want:
                bad.append(('target_format', 'the target is %r, but its format is %r' % (tf, tm)))
            obs.append(('consistent', '%r: fragment %r, target %r, format %r of %r' % (name, frag, tf, tm, rf)))
            for pn, text in bad:
                f = props[pn]
                findings.append(Finding('consistent', (f.module.path, f.qual, f.node.lineno), name,
                                        'for a file name like %r, %s' % (name, text)))
        d = pack(it, findings, obs)
        d['functions'] = an
        return d

    sweep(ck, sorted(names), job, label=str)
