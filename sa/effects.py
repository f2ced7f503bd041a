"""Classification of calls that leave the package: files, output, process, code execution."""
from .values import *

FS_CALLS = {
    'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.renames', 'os.mkdir', 'os.makedirs', 'os.rmdir',
    'os.removedirs', 'os.link', 'os.symlink', 'os.chmod', 'os.chown', 'os.truncate', 'os.utime', 'os.mkfifo', 'os.mknod',
    'shutil.copy', 'shutil.copy2', 'shutil.copyfile', 'shutil.copytree', 'shutil.move', 'shutil.rmtree',
    'shutil.copymode', 'shutil.copystat', 'shutil.make_archive', 'shutil.unpack_archive',
    'tempfile.mkstemp', 'tempfile.mkdtemp', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile',
    'tempfile.TemporaryDirectory', 'posix.unlink', 'sqlite3.connect', 'shelve.open', 'dbm.open',
}
FS_METHODS = {'.unlink', '.rename', '.mkdir', '.touch', '.rmdir', '.write_text', '.write_bytes', '.symlink_to',
              '.hardlink_to', '.link_to', '.chmod', '.replace'}
PATH_CLASSES = {'pathlib.Path', 'pathlib.PosixPath'}
OPENERS = {'open', 'io.open', 'codecs.open', 'os.fdopen', 'gzip.open', 'bz2.open', 'lzma.open', '_io.open',
           'builtins.open'}


def norm(name):
    for p in PATH_CLASSES:
        if name.startswith(p + '.'):
            return '.' + name[len(p) + 1:]
    return name


class IO:
    """One file operation: what it opens, how, and with which encoding."""
    __slots__ = ('op', 'mode', 'encoding', 'target', 'text', 'modifies', 'data')

    def __init__(self, op_, mode=None, encoding=None, target=None, text=False, modifies=None, data=None):
        self.op, self.mode, self.encoding, self.target = op_, mode, encoding, target
        self.text, self.modifies, self.data = text, modifies, data


def _get(args, kw, i, name):
    if i is not None and i < len(args) and args[i][0] != 'kw':
        return args[i]
    return kw.get(name)


def modes(v):
    """The constant modes v may stand for, or None when unknown."""
    if v is None:
        return ['r']
    out = []
    for m in members(v):
        if is_const(m) and isinstance(cval(m), str):
            out.append(cval(m))
        else:
            return None
    return out


def io_call(ev):
    """IO of an XCALL event, or None."""
    if ev.kind != 'XCALL':
        return None
    name, recv, args, kwargs = ev.args[:4]
    kw = dict(kwargs)
    name0 = name
    name = norm(name)
    if name != name0 and args:          # unbound method of Path
        recv, args = args[0], args[1:]
    if name in OPENERS or name == '.open':
        if name == '.open':
            mode, enc, target = _get(args, kw, 0, 'mode'), _get(args, kw, 2, 'encoding'), recv
            if not is_path_like_mode(mode):
                return None
        elif name == 'codecs.open':
            mode, enc, target = _get(args, kw, 1, 'mode'), _get(args, kw, 2, 'encoding'), _get(args, kw, 0, 'filename')
        else:
            mode, enc, target = _get(args, kw, 1, 'mode'), _get(args, kw, 3, 'encoding'), _get(args, kw, 0, 'file')
        ms = modes(mode)
        if ms is None:
            return IO('open', None, enc, target, None, None)
        if name == 'codecs.open' and enc is None:
            return IO('open', ms, enc, target, True, any(set(m) & set('wax+') for m in ms))
        text = any('b' not in m for m in ms)
        if name in ('gzip.open', 'bz2.open', 'lzma.open'):
            text = any('t' in m for m in ms)
        return IO('open', ms, enc, target, text, any(set(m) & set('wax+') for m in ms))
    if name == 'io.TextIOWrapper':
        return IO('wrap', None, _get(args, kw, 1, 'encoding'), _get(args, kw, 0, 'buffer'), True, False)
    if name == '.read_text':
        return IO('read_text', None, _get(args, kw, 0, 'encoding'), recv, True, False)
    if name == '.write_text':
        return IO('write_text', None, _get(args, kw, 1, 'encoding'), recv, True, True, _get(args, kw, 0, 'data'))
    if name == '.write_bytes':
        return IO('write_bytes', None, None, recv, False, True, _get(args, kw, 0, 'data'))
    if name in ('tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile', 'tempfile.SpooledTemporaryFile'):
        ms = modes(_get(args, kw, 0, 'mode')) if _get(args, kw, 0, 'mode') is not None else ['w+b']
        return IO('temp', ms, _get(args, kw, 2, 'encoding'), None, ms is not None and any('b' not in m for m in ms), True)
    if name in FS_CALLS:
        return IO(name, None, None, args[0] if args else None, False, True)
    if name in FS_METHODS:
        if name == '.replace' and len(args) != 1:
            return None
        return IO(name, None, None, recv, False, True)
    return None


def is_path_like_mode(mode):
    """`x.open(mode)` is a file open unless its argument can only be something else."""
    if mode is None:
        return True
    ms = modes(mode)
    if ms is None:
        return all(m[0] != 'c' for m in members(mode))
    return all(set(m) <= set('rwxabt+U') for m in ms)


def is_fsmod(ev):
    """Does this call change the file system? (an open with an unknown mode counts)"""
    i = io_call(ev)
    if i is None:
        return False
    return bool(i.modifies) or (i.op == 'open' and i.modifies is None)


def is_temp(v):
    return any(t[0] == 'x' and t[1].startswith('tempfile.') for t in walk(v)) if v is not None else False
