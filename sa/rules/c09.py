"""C09 Documents cannot make the library run code."""
from ..common import *

PASSES = 2      # of loop bodies

RUN = {'eval', 'exec', 'compile', 'os.system', 'os.popen', 'os.startfile', 'pty.spawn', 'code.interact', 'execfile',
       'yaml.unsafe_load', 'yaml.unsafe_load_all', 'yaml.full_load', 'yaml.full_load_all', 'builtins.eval',
       'builtins.exec', 'runpy.run_path', 'runpy.run_module', 'types.FunctionType', 'types.CodeType', 'imp.load_source',
       'imp.load_module', 'importlib.util.spec_from_file_location', 'importlib.machinery.SourceFileLoader', 'timeit.timeit',
       'numpy.load', 'pandas.read_pickle', 'pandas.eval', 'torch.load', 'ctypes.CDLL'}
RUN_MODULES = ('pickle.', 'cPickle.', '_pickle.', 'marshal.', 'shelve.', 'dill.', 'cloudpickle.', 'joblib.', 'jsonpickle.',
               'subprocess.', 'os.exec', 'os.spawn', 'asyncio.create_subprocess', 'commands.')
SERIALISERS = ('.dump', '.dumps', '.Pickler')
IMPORTERS = {'__import__', 'importlib.import_module', 'builtins.__import__', 'importlib.__import__', 'pydoc.locate',
             'pkgutil.resolve_name', 'pkgutil.get_loader', 'importlib.util.find_spec'}
SAFE_LOADERS = {'yaml.SafeLoader', 'yaml.CSafeLoader', 'yaml.BaseLoader', 'yaml.CBaseLoader', 'yaml.loader.SafeLoader',
                'yaml.cyaml.CSafeLoader'}
UNSAFE_LOADERS = {'yaml.Loader', 'yaml.UnsafeLoader', 'yaml.FullLoader', 'yaml.CLoader', 'yaml.CUnsafeLoader',
                  'yaml.CFullLoader', 'yaml.loader.Loader', 'yaml.loader.UnsafeLoader', 'yaml.loader.FullLoader'}
REGISTER = {'TermParser.register_term_class', 'MetatabDoc.register_term_class'}


def from_registry(v):
    """Every possible value of v is a constant, a class, or an entry of the term class registration."""
    def ok(m):
        if m[0] in ('c', 'C', 'g', 'F'):
            return True
        if m[0] == 'i' or m[0] == 'e':
            return any(t[0] == 'a' and t[2] == 'term_classes' for t in walk(m[1])) or \
                any(t[0] == 'G' and t[2].endswith('term_classes') for t in walk(m[1]))
        if m[0] == 'x' and m[1] in ('.get', 'get') and m[2]:
            return ok(('i', m[2][0], NONE))
        if m[0] == 'u':
            return True
        return False
    return all(ok(m) for m in members(v))


def verdict(ev, entry):
    name, recv, args, kw = ev.args[:4]
    kwd = dict(kw)
    vals = [a[2] if a[0] == 'kw' else a for a in args] + list(kwd.values())
    if name in RUN or (name.startswith(RUN_MODULES) and not name.endswith(SERIALISERS)):
        if name == 'compile' and False:
            return None
        return '%s can run code' % name
    if name in IMPORTERS:
        if entry == 'import_name_or_class' or (vals and from_registry(vals[0])):
            return None
        return '%s of %s, which is not from the term class registration' % (name, show(vals[0]) if vals else '?')
    if name in ('yaml.load', 'yaml.load_all'):
        loader = kwd.get('Loader') or (args[1] if len(args) > 1 else None)
        if loader is None:
            return '%s without a safe loader' % name
        for m in members(loader):
            if m[0] == 'g' and m[1] not in SAFE_LOADERS:
                return '%s with %s' % (name, m[1])
    if name in UNSAFE_LOADERS:
        return '%s builds arbitrary objects' % name
    for a in vals:
        for m in members(a):
            if m[0] == 'g' and (m[1] in RUN or m[1] in IMPORTERS and entry != 'import_name_or_class'):
                return '%s is given %s' % (name, m[1])
    if name == '?' and recv is not None:
        for m in members(recv):
            if m[0] == 'x' and m[1] == 'getattr' and len(m[2]) > 1 and not is_const(m[2][1]) \
                    and entry != 'import_name_or_class':
                return 'a method chosen by %s is called' % show(m[2][1])
            if m[0] in ('i', 'a') and any(t[0] in ('G', 'g') and t[-1] in ('__builtins__', 'builtins')
                                          for t in walk(m)):
                return 'a builtin chosen by %s is called' % show(m)
            if m[0] == 'i' and m[1][0] == 'x' and m[1][1] in ('globals', 'locals', 'vars'):
                return 'a global chosen by %s is called' % show(m[2])
    return None


def run(prog, ck, thorough):
    ck.rule('no-code-execution', 'no function reaches eval, exec, unpickling, a shell, an unsafe YAML loader, or a call '
                                 'of a function that a document names', 100)
    ck.rule('import-by-name', 'import_name_or_class is only given entries of the term class registration', 1)
    ck.rule('registration', 'the term class registration is only changed by register/unregister_term_class', 1)
    ck.notes += ['the program that uses the library is trusted with what it registers',
                 'row generators of the rowgenerators package are outside the analysed code']
    at = boundaries(prog)

    def job(f, cap):
        findings, obs = [], [('no-code-execution', f.module.name + ':' + f.qual)]
        fq = f.qual

        def o(ev, st, it):
            if ev.kind == 'XCALL':
                why = verdict(ev, fq)
                if why:
                    findings.append(Finding('no-code-execution', ev.where, ev.args[0], why, it.chain()))
            elif ev.kind == 'CALL':
                q = ev.args[0]
                if q == 'import_name_or_class' and fq not in ('import_name_or_class',) and fq not in REGISTER:
                    v = ev.args[1][0][1] if ev.args[1] else TOP
                    obs.append(('import-by-name', '%s: %s' % (ev.where[1], show(v))))
                    if not from_registry(v):
                        findings.append(Finding('import-by-name', ev.where, 'import_name_or_class',
                                                'import_name_or_class is given %s, which is not from the term class '
                                                'registration' % show(v), it.chain()))
                if q in REGISTER | {'TermParser.unregister_term_class'} and fq not in REGISTER:
                    findings.append(Finding('registration', ev.where, q, '%s registers a term class' % fq, it.chain()))
            elif ev.kind == 'MUT':
                c = ev.args[0]
                if any(t[0] == 'a' and t[2] == 'term_classes' for t in walk(c)):
                    obs.append(('registration', fq + ' ' + str(ev.args[1])))
                    if fq not in REGISTER | {'TermParser.unregister_term_class'}:
                        findings.append(Finding('registration', ev.where, 'term_classes', '%s changes the term class '
                                                'registration' % fq, it.chain()))
            elif ev.kind == 'STORE' and ev.args[1] == 'term_classes':
                if fq not in REGISTER | {'TermParser.unregister_term_class'}:
                    findings.append(Finding('registration', ev.where, 'term_classes', '%s replaces the term class '
                                            'registration' % fq, it.chain()))

        it = Interp(prog, atoms=at, cap=cap, observers=[o], opaque=('MetatabDoc', 'TermParser'))
        it.run(f)
        return pack(it, findings, obs)

    sweep(ck, [f for f in entries(prog)], job, label=lambda f: f.qual)
